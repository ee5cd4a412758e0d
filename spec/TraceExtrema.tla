------------------------------ MODULE TraceExtrema ------------------------------
(* Bounds and attribute extrema.  Coordinates and components are numbers of    *)
(* the values in an ascending list, so that values of all magnitudes occur.    *)
EXTENDS Boxes, SequencesExt, Json, TLC, TLCExt, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
Start == atoi(IOEnv.START)
VARIABLES l, vs
vars == <<l, vs>>
Init == l = Start /\ vs = <<>>
ev == Log[l]
Is(e) == l <= Len(Log) /\ ev.e = e /\ l' = l + 1
Same == UNCHANGED vs
Smallest(a) == Min({ vs[i][a] : i \in DOMAIN vs })
Largest(a) == Max({ vs[i][a] : i \in DOMAIN vs })

\* vs: the column of the positions, or of the attribute, as tuples of components
TNew == Is("new") /\ vs' = ev.vs
TBounds == Is("bounds") /\ Same /\ ev.ok /\
  IF vs = <<>> \/ ~ev.has THEN ~ev.some ELSE ev.some /\ ev.box = OfPoints(vs)
TMinMax == Is("minmax") /\ Same /\
  \* a missing attribute is refused; asking for another type than the stored one may be
  IF ~ev.has THEN ~ev.ok
  ELSE IF ev.as # ev.dt /\ ~ev.ok THEN TRUE
  ELSE /\ ev.ok
       /\ IF vs = <<>> THEN ~ev.some
          ELSE ev.some /\ \A a \in DOMAIN vs[1] : ev.lo[a] = Smallest(a) /\ ev.hi[a] = Largest(a)
\* the buffer afterwards
TColumn == Is("column") /\ Same /\ ev.vs = vs
Next == TNew \/ TBounds \/ TMinMax \/ TColumn
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Log) - Start + 1
=============================================================================
