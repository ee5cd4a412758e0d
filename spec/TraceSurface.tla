------------------------------ MODULE TraceSurface ------------------------------
EXTENDS Surface, Json, TLC, TLCExt, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
Start == atoi(IOEnv.START)
VARIABLES l, ps
vars == <<l, ps>>
Init == l = Start /\ ps = <<>>
ev == Log[l]
Is(e) == l <= Len(Log) /\ ev.e = e /\ l' = l + 1
Same == UNCHANGED ps
TNew == Is("new") /\ ps' = ev.ps
\* ev.fin are the points with finite coordinates (other points were mixed in); c is in thousandths
TCentroid == Is("centroid") /\ Same /\
  IF ev.n = 0 THEN ~ev.ok
  ELSE LET n == Len(ps) IN n > 0 => ev.ok /\ ev.finite /\ \A a \in 1..3 : AbsV(ev.c[a] * n - 1000 * SumV(ps)[a]) <= n
TNormals == Is("normals") /\ Same /\
  IF Len(ps) < 3 \/ ev.k < 3 THEN ~ev.ok
  ELSE /\ ev.ok /\ Len(ev.r) = Len(ps)
       \* (.. = TRUE: a value; TLC would branch on the alternatives in it)
       /\ (\A i \in DOMAIN ps : \E S \in Neighbourhoods(ps, i, ev.k) :
            LET q == SetToSeq(S) IN Describes(ev.r[i].v6, ev.r[i].v, ev.r[i].kz, [j \in DOMAIN q |-> ps[q[j]]])) = TRUE
Next == TNew \/ TCentroid \/ TNormals
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Log) - Start + 1
=============================================================================
