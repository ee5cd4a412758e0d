-------------------------------- MODULE MCPusher --------------------------------
(* Model checking of Pusher: sessions of up to MaxPush calls, committed,      *)
(* refused or dropped, one after the other.                                   *)
EXTENDS Pusher, TLC
CONSTANTS MaxAttrs, MaxPush, MaxPts
VARIABLES calls,   \* of this session: <<attribute, values>>
          last     \* what the last step was
vars == <<na, pts, open, pend, cnt, calls, last>>

Cols == UNION { [1..k -> {1, 2}] : k \in 0..2 }
Init == na \in 1..MaxAttrs /\ pts = <<>> /\ open = FALSE /\ pend = <<>> /\ cnt = -1 /\ calls = <<>> /\ last = "new"
Next == \/ Begin /\ calls' = <<>> /\ last' = "begin"
        \/ open /\ Len(calls) < MaxPush /\ \E at \in 0..na, vs \in Cols :
             IF CanPush(at, vs, TRUE) THEN PushCol(at, vs) /\ calls' = Append(calls, <<at, vs>>) /\ last' = "push"
             ELSE PushRefused /\ calls' = calls /\ last' = "refused"
        \/ Len(pts) + cnt <= MaxPts /\ Commit /\ calls' = calls /\ last' = "commit"
        \/ CommitNothing /\ calls' = calls /\ last' = "nothing"
        \/ CommitRefused /\ calls' = calls /\ last' = "norefused"
        \/ open /\ Drop /\ calls' = calls /\ last' = "drop"
Spec == Init /\ [][Next]_vars

Rectangular == WellFormed(pts, na) /\ TypeOK
\* what the attributes were given, in the order of the calls
Given(a) == FoldLeft(LAMBDA acc, c : IF c[1] = a THEN acc \o c[2] ELSE acc, <<>>, calls)
Collected == open => \A a \in 1..na : pend[a] = Given(a)
SameLength == \A i, j \in DOMAIN calls : Len(calls[i][2]) = Len(calls[j][2])
\* points appear only by a commit in which every attribute was given the same number of values, once
AllOrNothing == [][pts' # pts =>
  /\ last' = "commit" /\ IsPrefix(pts, pts') /\ ~open'
  /\ LET k == Len(pts') - Len(pts)
     IN \A a \in 1..na : Len(Given(a)) = k /\ \A i \in 1..k : pts'[Len(pts) + i][a] = Given(a)[i]]_vars
\* a call for every attribute once, with the same number of values, can always be committed
Complete1 == open /\ Len(calls) = na /\ { calls[i][1] : i \in DOMAIN calls } = 1..na => (Nothing \/ Complete)
\* exactly one verdict is possible
Verdict == open => (Complete <=> ~ENABLED CommitRefused)
=============================================================================
