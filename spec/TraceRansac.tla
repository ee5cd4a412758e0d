------------------------------ MODULE TraceRansac ------------------------------
EXTENDS Ransac, Json, TLC, TLCExt, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
Start == atoi(IOEnv.START)
VARIABLES l, ps
vars == <<l, ps>>
Init == l = Start /\ ps = <<>>
ev == Log[l]
Is(e) == l <= Len(Log) /\ ev.e = e /\ l' = l + 1
Same == UNCHANGED ps
Need(kind) == IF kind = "line" THEN 2 ELSE 3

TNew == Is("new") /\ ps' = ev.ps
TFit == Is("fit") /\ Same /\
  IF Len(ps) < Need(ev.kind) THEN ~ev.ok
  ELSE /\ ev.ok
       \* the model is spanned by input points
       /\ Len(ev.span) = Need(ev.kind) /\ \A k \in DOMAIN ev.span : ev.span[k] \in DOMAIN ps
       /\ Inliers(ev.inl, ev.kind, ev.span, ps, ev.num, ev.den)
       /\ ev.rank = Len(ev.inl)
       \* sampled often enough: nothing fits better
       /\ (ev.many => Len(ev.inl) >= Best(ev.kind, ps, ev.num, ev.den))
Next == TNew \/ TFit
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Log) - Start + 1
=============================================================================
