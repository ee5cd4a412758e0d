------------------------------- MODULE TraceHull -------------------------------
EXTENDS Hull, Json, TLC, TLCExt, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
Start == atoi(IOEnv.START)
\* m: the mesh of the cloud ps
VARIABLES l, ps, m
vars == <<l, ps, m>>
Init == l = Start /\ ps = <<>> /\ m = <<>>
ev == Log[l]
Is(e) == l <= Len(Log) /\ ev.e = e /\ l' = l + 1
Same == UNCHANGED ps

TNew == Is("new") /\ ps' = ev.ps /\ m' = <<>>
\* small enough to look for convex combinations
Small == Len(ps) <= 12
\* (.. = TRUE: a value; TLC would branch on the alternatives in it)
TMesh == Is("mesh") /\ Same /\ m' = ev.t /\
  IF ps = <<>> \/ Rank(ps) < 2 THEN ev.r = "err"
  ELSE (ev.r = "ok" /\ Hull(ev.t, ps) /\ (Small => Encloses(Corners(ev.t), ps))) = TRUE
TPoints == Is("points") /\ Same /\ m' = m /\ ev.r = "ok" /\
  /\ IsInjective(ev.ix) /\ \A k \in DOMAIN ev.ix : ev.ix[k] \in DOMAIN ps
  /\ (IF Small THEN Encloses(ToSet(ev.ix), ps)
      ELSE (m # <<>> /\ \A i \in DOMAIN m : Strict(m[i], ps)) => ListsCorners(ToSet(ev.ix), m, ps)) = TRUE
\* a buffer without positions has no hull
TNone == Is("none") /\ Same /\ m' = m /\ ev.r = "panic"

Next == TNew \/ TMesh \/ TPoints \/ TNone
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Log) - Start + 1
=============================================================================
