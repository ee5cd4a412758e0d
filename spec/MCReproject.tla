------------------------------ MODULE MCReproject ------------------------------
(* The reprojection of two clouds, point by point as the loops do it, and the *)
(* laws of the whole operations.  Places are 1..Places; a transformation is   *)
(* any function on them.                                                      *)
EXTENDS Reproject, FiniteSets, TLC
CONSTANTS Places, MaxPts, MaxCalls
VARIABLES a, b,      \* the clouds
          ga, gb,    \* what they have to be after the calls made so far
          call, k, calls
vars == <<a, b, ga, gb, call, k, calls>>
Pos == 1..Places
Trans == [Pos -> Pos]
Idle == [kind |-> "idle", t |-> <<>>]
\* other attributes: every point has its own
Cloud(n, base) == { [i \in 1..n |-> <<f[i], base + i>>] : f \in [1..n -> Pos] }
Init == /\ \E n \in 0..MaxPts : a \in Cloud(n, 10)
        /\ \E n \in 0..MaxPts : b \in Cloud(n, 20)
        /\ ga = a /\ gb = b /\ call = Idle /\ k = 0 /\ calls = 0
Start(kind, t) == call = Idle /\ calls < MaxCalls /\ call' = [kind |-> kind, t |-> t] /\ k' = 1 /\ calls' = calls + 1 /\ UNCHANGED <<a, b>>
StartWithin == \E t \in Trans : Start("within", t) /\ ga' = Within(t, ga) /\ gb' = gb
StartBetween == Len(a) = Len(b) /\ \E t \in Trans : Start("between", t) /\ gb' = Between(t, ga, gb) /\ ga' = ga
\* refused before anything is written: clouds of different sizes, unusable systems
Refuse == call = Idle /\ calls < MaxCalls /\ calls' = calls + 1 /\ UNCHANGED <<a, b, ga, gb, call, k>>
Step == /\ call # Idle /\ k <= Len(a) /\ k' = k + 1 /\ UNCHANGED <<ga, gb, call, calls>>
        /\ IF call.kind = "within" THEN a' = [a EXCEPT ![k] = Moved(call.t, @)] /\ b' = b
           ELSE b' = [b EXCEPT ![k] = <<call.t[a[k][1]], @[2]>>] /\ a' = a
Return == call # Idle /\ k > Len(a) /\ call' = Idle /\ k' = 0 /\ UNCHANGED <<a, b, ga, gb, calls>>
Next == StartWithin \/ StartBetween \/ Refuse \/ Step \/ Return
Spec == Init /\ [][Next]_vars

Refines == call = Idle => a = ga /\ b = gb
\* on the way: the points before k are done, the others are as before
Progress == call # Idle => LET p == IF call.kind = "within" THEN a ELSE b g == IF call.kind = "within" THEN ga ELSE gb IN
  Len(p) = Len(g) /\ \A i \in DOMAIN p : p[i][2] = g[i][2] /\ (i < k => p[i] = g[i])
Others == /\ \A i \in DOMAIN a : a[i][2] = 10 + i
          /\ \A i \in DOMAIN b : b[i][2] = 20 + i
\* laws of the operations
Compose(s, t) == [p \in Pos |-> t[s[p]]]
Id == [p \in Pos |-> p]
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
Laws == (calls = 0) =>
  /\ Within(Id, a) = a
  /\ \A t \in Trans : /\ Len(Within(t, a)) = Len(a)
                      /\ Between(t, a, a) = Within(t, a)
                      /\ Rev(Within(t, a)) = Within(t, Rev(a))
                      /\ (Len(a) = Len(b) => Between(Id, Within(t, a), b) = Between(t, a, b))
                      /\ \A u \in Trans : Within(u, Within(t, a)) = Within(Compose(t, u), a)
  \* a transformation that can be undone is undone by its inverse
  /\ \A t, u \in Trans : Compose(t, u) = Id => Within(u, Within(t, a)) = a
=============================================================================
