----------------------------- MODULE TraceReproject -----------------------------
EXTENDS Reproject, Json, TLC, TLCExt, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
Start == atoi(IOEnv.START)
VARIABLES l, a, b   \* two clouds
vars == <<l, a, b>>
Init == l = Start /\ a = <<>> /\ b = <<>>
ev == Log[l]
Is(e) == l <= Len(Log) /\ ev.e = e /\ l' = l + 1
Seen == ev.a = a' /\ ev.b = b'
TNew == Is("new") /\ a' = ev.a /\ b' = ev.b
\* ev.t: the transformation as a table from positions to positions (tokens); ev.valid: the systems are usable
TWithin == Is("within") /\ b' = b /\
  IF ev.valid THEN ev.ok /\ a' = Within(ev.t, a) ELSE ~ev.ok /\ a' = a
TBetween == Is("between") /\ a' = a /\
  IF ev.valid /\ Len(a) = Len(b) THEN ev.ok /\ b' = Between(ev.t, a, b) ELSE ~ev.ok /\ b' = b
\* creating a projection succeeds for usable systems only
TProjection == Is("projection") /\ UNCHANGED <<a, b>> /\ ev.ok = ev.valid
\* reference values: deviation from the known result, in units that must not exceed 1; and back again
TReference == Is("reference") /\ UNCHANGED <<a, b>> /\ ev.ok /\ \A k \in DOMAIN ev.dev : ev.dev[k] <= 1
TBox == Is("box") /\ UNCHANGED <<a, b>> /\ ev.ok /\ \A k \in 1..3 :
  ev.lo[k] = (IF ev.p[k] <= ev.q[k] THEN ev.p[k] ELSE ev.q[k]) /\ ev.hi[k] = (IF ev.p[k] <= ev.q[k] THEN ev.q[k] ELSE ev.p[k])
Next == \/ TNew
        \/ (TWithin /\ Seen) \/ (TBetween /\ Seen) \/ TProjection \/ TReference \/ TBox
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Log) - Start + 1
=============================================================================
