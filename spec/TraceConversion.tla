---------------------------- MODULE TraceConversion ----------------------------
EXTENDS Conversion, Json, TLC, TLCExt, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
Start == atoi(IOEnv.START)
VARIABLES l, live
vars == <<from, to, map, l, live>>
Init == l = Start /\ from = <<>> /\ to = <<>> /\ map = <<>> /\ live = FALSE
ev == Log[l]
Is(e) == l <= Len(Log) /\ ev.e = e /\ l' = l + 1
Same == UNCHANGED <<from, to, map, live>>

TNew == Is("new") /\ live' = ev.ok /\ ev.ok = CanCreate(ev.from, ev.to, ev.dflt)
        /\ IF ev.ok THEN Create(ev.from, ev.to) ELSE UNCHANGED cvars
TMap == Is("map") /\ live /\ live' = live /\
  IF CanMap(ev.a, ev.b, ev.x, ev.pre, ev.tt) THEN ev.ok /\ Mapped(ev.a, ev.b, ev.x, ev.pre) ELSE ~ev.ok /\ UNCHANGED cvars
TConvert == Is("convert") /\ live /\ Same /\
  IF ev.samelay THEN ev.ok /\ ev.out = Converted(ev.ps) ELSE ~ev.ok
TInto == Is("into") /\ live /\ Same /\
  LET ok == /\ ev.samelay /\ ev.a <= ev.b /\ ev.b <= Len(ev.ps) /\ ev.c <= ev.d /\ ev.d <= Len(ev.pre)
            /\ ev.b - ev.a = ev.d - ev.c
      \* an empty range does nothing wherever it is
      void == ev.a >= ev.b /\ ev.c >= ev.d
  IN /\ (ok => ev.ok) /\ (ev.ok => ok \/ (ev.samelay /\ void))
     /\ ev.out = IF ok THEN ConvertedInto(ev.ps, ev.a, ev.b, ev.pre, ev.c) ELSE ev.pre
     /\ ev.src = ev.ps

\* convert_into without ranges: all points, to the front of the target.  A longer target may be refused
TIntoAll == Is("intoall") /\ live /\ Same /\
  LET n == Len(ev.ps) IN
  /\ (ev.samelay /\ n = Len(ev.pre) => ev.ok) /\ (ev.ok => ev.samelay /\ n <= Len(ev.pre))
  /\ ev.out = (IF ev.ok THEN ConvertedInto(ev.ps, 0, n, ev.pre, 0) ELSE ev.pre)
  /\ ev.src = ev.ps

Next == TNew \/ TMap \/ TConvert \/ TInto \/ TIntoAll
Spec == Init /\ [][Next]_vars
TypeOK == \A j \in DOMAIN map : map[j].src \in 0..Len(from)
Accepted == TLCGet("stats").diameter - 1 = Len(Log) - Start + 1
=============================================================================
