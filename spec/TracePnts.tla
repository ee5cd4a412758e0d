------------------------------- MODULE TracePnts -------------------------------
(* Histories of writers and readers of 3D Tiles point clouds.                  *)
EXTENDS Pnts, Window, Json, TLC, TLCExt, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
Start == atoi(IOEnv.START)
VARIABLES l, lay, pts, rtc, long,    \* the writer, and how long its file is
          file, es, pos, absolute  \* the reader
vars == <<l, lay, pts, rtc, long, file, es, pos, absolute>>
writer == <<lay, pts, rtc, long>>
reader == <<file, es, pos, absolute>>
Init == l = Start /\ lay = <<>> /\ pts = <<>> /\ rtc = <<>> /\ long = 0 /\ file = <<>> /\ es = <<>> /\ pos = 0 /\ absolute = TRUE
ev == Log[l]
Is(e) == l <= Len(Log) /\ ev.e = e /\ l' = l + 1

TNew == Is("new") /\ lay' = ev.lay /\ pts' = <<>> /\ rtc' = <<>> /\ long' = 0 /\ UNCHANGED reader
TCenter == Is("center") /\ rtc' = ev.c /\ UNCHANGED <<lay, pts, long>> /\ UNCHANGED reader
TWrite == Is("write") /\ UNCHANGED <<lay, rtc, long>> /\ UNCHANGED reader /\ ev.ok = ev.same /\ pts' = (IF ev.same THEN pts \o ev.pts ELSE pts)
\* after a flush (or the end of the writer) the file has all points (a longer one written before, with another center, is not cut off)
TFile == Is("file") /\ UNCHANGED <<lay, pts, rtc>> /\ UNCHANGED reader /\ ev.ok /\ long' = Len(ev.file)
  /\ Len(ev.file) = (IF U32At(ev.file, 8) < long THEN long ELSE U32At(ev.file, 8))
  /\ (Wellformed(ev.file, ev.es, ev.json) /\ Stored(ev.file, ev.es, lay, pts, rtc)) = TRUE
TOpen == Is("open") /\ UNCHANGED writer /\ file' = ev.file /\ es' = ev.es /\ pos' = 0 /\ absolute' = TRUE
  /\ ev.ok /\ ev.total = PointsLength(ev.es)
  /\ Len(ev.lay) = Cardinality(FileDefs(ev.es)) /\ { ev.lay[i] : i \in DOMAIN ev.lay } = FileDefs(ev.es)
  /\ ev.rtc = (IF HasEntry(ev.es, "RTC_CENTER") THEN Entry(ev.es, "RTC_CENTER").a ELSE <<>>)
\* not a file of this kind
TReject == Is("reject") /\ UNCHANGED writer /\ UNCHANGED reader /\ ~ev.ok
TMode == Is("mode") /\ UNCHANGED writer /\ absolute' = ev.absolute /\ ev.got = ev.absolute /\ UNCHANGED <<file, es, pos>>
Total == PointsLength(es)
TRead == Is("read") /\ UNCHANGED writer /\ UNCHANGED <<file, es, absolute>> /\
  LET n == Reads(Total, pos, ev.count)
      able == n > 0 /\ ReadableInto(es, ev.defs)
  IN /\ pos' = IF able THEN pos + n ELSE pos
     /\ (IF n = 0 THEN ~ev.ok \/ ev.n = 0
         ELSE IF ~able THEN ~ev.ok
         ELSE /\ ev.ok /\ ev.n = n /\ Len(ev.pts) = n /\ ev.rest
              /\ \A i \in 1..n : \A k \in DOMAIN ev.defs : ReadsAs(file, es, pos + i, ev.defs[k], ev.pts[i][k], absolute)) = TRUE
TSeek == Is("seek") /\ UNCHANGED writer /\ UNCHANGED <<file, es, absolute>> /\
  LET t == Target(Total, pos, ev.whence, ev.off) IN
  pos' = (IF t < 0 THEN pos ELSE Clamped(Total, t)) /\ (IF t < 0 THEN ~ev.ok ELSE ev.ok /\ ev.at = Clamped(Total, t)) = TRUE
TAt == Is("at") /\ UNCHANGED writer /\ UNCHANGED reader /\ ev.index = pos /\ ev.total = Total
Next == TNew \/ TCenter \/ TWrite \/ TFile \/ TOpen \/ TReject \/ TMode \/ TRead \/ TSeek \/ TAt
Spec == Init /\ [][Next]_vars
TypeOK == TRUE
Accepted == TLCGet("stats").diameter - 1 = Len(Log) - Start + 1
=============================================================================
