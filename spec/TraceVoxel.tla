------------------------------- MODULE TraceVoxel -------------------------------
EXTENDS Voxel, Json, TLC, TLCExt, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
Start == atoi(IOEnv.START)
VARIABLES l, ps, out
vars == <<l, ps, out>>
Init == l = Start /\ ps = <<>> /\ out = <<>>
ev == Log[l]
Is(e) == l <= Len(Log) /\ ev.e = e /\ l' = l + 1
\* a cloud, and a target buffer with some points already in it
TNew == Is("new") /\ ps' = ev.ps /\ out' = ev.out
TFilter == Is("filter") /\ UNCHANGED ps /\
  /\ ev.ok /\ out' = ev.out
  /\ Len(ev.out) >= Len(out) /\ SubSeq(ev.out, 1, Len(out)) = out
  \* (.. = TRUE: a value; TLC would branch on the alternatives in it)
  /\ Downsampled(SubSeq(ev.out, Len(out) + 1, Len(ev.out)), ps, ev.leaf, ev.hows) = TRUE
\* attributes that have no reduction are refused and nothing is written
TRefused == Is("refused") /\ ~ev.ok /\ ev.out = out /\ UNCHANGED <<ps, out>>
Next == TNew \/ TFilter \/ TRefused
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Log) - Start + 1
=============================================================================
