-------------------------------- MODULE TraceLas --------------------------------
(* Histories of writers and readers of LAS and LAZ files.                      *)
EXTENDS LasFile, Window, Json, TLC, TLCExt, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
Start == atoi(IOEnv.START)
VARIABLES l, c, qs,            \* the file that is written and its points
          file, n, world, pos  \* the file that is read
vars == <<l, c, qs, file, n, world, pos>>
reader == <<file, n, world, pos>>
Init == l = Start /\ c = <<>> /\ qs = <<>> /\ file = <<>> /\ n = 0 /\ world = <<>> /\ pos = 0
ev == Log[l]
Is(e) == l <= Len(Log) /\ ev.e = e /\ l' = l + 1
Names(ds) == { ds[k].n : k \in DOMAIN ds }

\* a writer with a header, or for points of a layout
TNew == Is("new") /\ c' = ev.c /\ qs' = <<>> /\ UNCHANGED reader
  /\ (ev.ok /\ ev.lay = UserDefs(ev.c.fmt, ev.c.extra) /\ (ev.for # <<>> => Best(Names(ev.for), ev.c.fmt))) = TRUE
\* LAZ has no formats with waveforms in extended records
TNone == Is("none") /\ UNCHANGED <<c, qs>> /\ UNCHANGED reader
  /\ (~ev.ok /\ ev.laz /\ (ev.fmt \in {9, 10} \/ \E f \in {9, 10} : ev.for # <<>> /\ Best(Names(ev.for), f))) = TRUE
TWrite == Is("write") /\ UNCHANGED c /\ UNCHANGED reader
  /\ ev.ok = ~(Len(ev.pts) > 0 /\ Unstorable(c, ev.lay))
  /\ qs' = (IF ev.ok THEN qs \o [i \in DOMAIN ev.pts |-> [lay |-> ev.lay, p |-> ev.pts[i], loc |-> IF c.grid THEN ev.loc[i] ELSE <<>>]] ELSE qs)
PosBytes(q) == LET b == q.p[IndexIn(q.lay, "Position3D")] IN << Cut(b, 0, 8), Cut(b, 8, 8), Cut(b, 16, 8) >>
\* after a flush, and at the end of the writer, the file has all the points
TFile == Is("file") /\ UNCHANGED <<c, qs, pos>> /\ (ev.ok /\ FileOK(c, ev.file, qs)) = TRUE
  /\ file' = ev.file /\ n' = Len(qs) /\ world' = (IF c.grid THEN [i \in DOMAIN qs |-> PosBytes(qs[i])] ELSE <<>>)
\* a file of others
TForeign == Is("foreign") /\ c' = ev.c /\ qs' = <<>> /\ file' = ev.file /\ n' = ev.n /\ world' = ev.world /\ pos' = 0
TOpen == Is("open") /\ UNCHANGED <<c, qs, file, n, world>> /\ pos' = 0
  /\ (/\ ev.ok /\ ev.total = n /\ (n > 0 => ev.bounds = << Cut(file, 187, 8), Cut(file, 203, 8), Cut(file, 219, 8), Cut(file, 179, 8), Cut(file, 195, 8), Cut(file, 211, 8) >>)
      /\ ev.lay = (IF ev.exact THEN RecordDefs(c.fmt, c.extra) ELSE UserDefs(c.fmt, c.extra))
      /\ ev.size = Length(ev.lay) /\ ev.at = [k \in DOMAIN ev.lay |-> Before(ev.lay, k)]) = TRUE
\* not a file of this kind
TReject == Is("reject") /\ UNCHANGED <<c, qs>> /\ UNCHANGED reader /\ ~ev.ok
TRead == Is("read") /\ UNCHANGED <<c, qs, file, n, world>> /\
  LET m == Reads(n, pos, ev.count)
      able == m > 0 /\ ReadableInto(c, ev.defs)
  IN /\ pos' = IF able THEN pos + m ELSE pos
     /\ (IF m = 0 THEN ~ev.ok \/ ev.n = 0
         ELSE IF ~able THEN ~ev.ok
         ELSE /\ ev.ok /\ ev.n = m /\ Len(ev.pts) = m /\ ev.rest
              /\ \A i \in 1..m : LET rec == Record(c, file, pos + i) IN
                   \A k \in DOMAIN ev.defs : ReadsAs(c, ev.defs[k], ev.pts[i][k], rec, IF c.grid THEN world[pos + i] ELSE <<>>)) = TRUE
TSeek == Is("seek") /\ UNCHANGED <<c, qs, file, n, world>> /\
  LET t == Target(n, pos, ev.whence, ev.off) IN
  pos' = (IF t < 0 THEN pos ELSE Clamped(n, t)) /\ (IF t < 0 THEN ~ev.ok ELSE ev.ok /\ ev.at = Clamped(n, t)) = TRUE
TAt == Is("at") /\ UNCHANGED <<c, qs>> /\ UNCHANGED reader /\ ev.index = pos /\ ev.total = n /\ ev.left = n - pos
\* many points, of which some are looked at; every third has the return numbers 1, 2 and 3; the file: as far as the points
TBulk == Is("bulk") /\ UNCHANGED <<c, qs>> /\ UNCHANGED reader /\ ev.ok /\
  (LET by(r) == IF r > 3 THEN 0 ELSE (ev.n + 3 - r) \div 3
       old(x) == IF Ext(ev.c.fmt) THEN 0 ELSE x
       able == ReadableInto(ev.c, ev.defs)
   IN /\ HeaderOK(ev.c, ev.file) /\ VlrsOK(ev.c, ev.file) /\ PointsAt(ev.file, ev.c.laz) = Len(ev.file)
      /\ (IF ev.c.laz THEN ev.len >= EndOfPoints(ev.c, ev.file, ev.n) ELSE ev.len = EndOfPoints(ev.c, ev.file, ev.n))
      /\ U32At(ev.file, 107) = old(ev.n) /\ \A r \in 1..5 : U32At(ev.file, 111 + 4 * (r - 1)) = old(by(r))
      /\ (ev.c.minor >= 4 => U32At(ev.file, 247) = ev.n /\ \A r \in 1..15 : U32At(ev.file, 255 + 8 * (r - 1)) = by(r))
      /\ \A k \in DOMAIN ev.seen : LET s == ev.seen[k] IN
           /\ PointStored(ev.c, [lay |-> ev.lay, p |-> s.p, loc |-> s.loc], s.rec)
           /\ \A j \in DOMAIN ev.defs : able => ReadsAs(ev.c, ev.defs[j], s.v[j], s.rec, s.w)) = TRUE
Next == TNew \/ TNone \/ TWrite \/ TFile \/ TForeign \/ TOpen \/ TReject \/ TRead \/ TSeek \/ TAt \/ TBulk
Spec == Init /\ [][Next]_vars
TypeOK == TRUE
Accepted == TLCGet("stats").diameter - 1 = Len(Log) - Start + 1
=============================================================================
