------------------------------ MODULE TracePusher ------------------------------
EXTENDS Pusher, Json, TLC, TLCExt, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
Start == atoi(IOEnv.START)
VARIABLE l
vars == <<na, pts, open, pend, cnt, l>>
Init == l = Start /\ na = 0 /\ pts = <<>> /\ open = FALSE /\ pend = <<>> /\ cnt = -1
ev == Log[l]
Is(e) == l <= Len(Log) /\ ev.e = e /\ l' = l + 1
Seen == ev.obs = pts' /\ ev.len = Len(pts')

TNew == Is("new") /\ Buffer(ev.na, ev.pts) /\ Seen
TBegin == Is("begin") /\ Begin
TPush == Is("push") /\
  IF ev.ok THEN CanPush(ev.at, ev.vs, ev.typed) /\ PushCol(ev.at, ev.vs)
  \* pushing an attribute a second time can only lead to a refused commit: it may be refused right away
  ELSE (CanPush(ev.at, ev.vs, ev.typed) => pend[ev.at] # <<>>) /\ PushRefused
TDone == Is("done") /\ (IF ev.ok THEN Commit \/ CommitNothing ELSE CommitRefused) /\ Seen
TDrop == Is("drop") /\ Drop /\ Seen
\* ordinary growth between two sessions
TRows == Is("rows") /\ ~open /\ pts' = pts \o ev.ps /\ UNCHANGED <<na, open, pend, cnt>> /\ Seen

Next == TNew \/ TBegin \/ TPush \/ TDone \/ TDrop \/ TRows
Spec == Init /\ [][Next]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Log) - Start + 1
=============================================================================
