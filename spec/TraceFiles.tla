------------------------------- MODULE TraceFiles -------------------------------
(* Histories of files that are written, read, copied and removed by path.      *)
EXTENDS Files, Json, TLCExt, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
Start == atoi(IOEnv.START)
VARIABLES l, fs, open, pos   \* the files; the path of the reader that is open, and where it is
vars == <<l, fs, open, pos>>
Init == l = Start /\ fs = NoFiles /\ open = "" /\ pos = 0
ev == Log[l]
Is(e) == l <= Len(Log) /\ ev.e = e /\ l' = l + 1
TFresh == Is("fresh") /\ fs' = NoFiles /\ open' = "" /\ pos' = 0
\* a file is written, at once or by a writer: it is of the kind of its path whatever was there, and has the points
TWrite == Is("write") /\ UNCHANGED <<open, pos>> /\
  LET kind == KindOf(ev.ext)
      f == [kind |-> kind, fmt |-> ev.flag % 64, lay |-> ev.lay, pts |-> ev.pts]
  IN fs' = (IF kind = "none" THEN fs ELSE Put(fs, ev.path, f)) /\
     (IF kind = "none" THEN ~ev.ok /\ ev.exists = (ev.path \in DOMAIN fs)
      ELSE /\ ev.ok /\ ev.exists /\ ev.magic = (IF IsLas(kind) THEN <<76, 65, 83, 70>> ELSE <<112, 110, 116, 115>>)
           /\ RightFormat(f) /\ (IsLas(kind) => (ev.flag >= 64) = (kind = "laz"))
           /\ (kind = "las" => ev.len = 375 + Len(ev.pts) * L!RecordLength(f.fmt, <<>>))) = TRUE
\* all points of a file in a new buffer; that there are none may be an error
TRead == Is("read") /\ UNCHANGED <<fs, open, pos>> /\
  (IF ~Readable(fs, ev.path, KindOf(ev.ext)) THEN ~ev.ok
   ELSE LET f == fs[ev.path] IN (f.pts = <<>> /\ ~ev.ok) \/ (ev.ok /\ HasLayout(f, ev.defs) /\ Len(ev.got) = Len(f.pts) /\ PointsRead(f, 0, ev.defs, ev.got))) = TRUE
\* all points of a file at the end of a buffer; nothing happens to those that it had
TInto == Is("into") /\ UNCHANGED <<fs, open, pos>> /\
  (IF ~Readable(fs, ev.path, KindOf(ev.ext)) THEN ~ev.ok /\ ev.after = ev.before
   ELSE LET f == fs[ev.path] b == Len(ev.before) IN
        \/ f.pts = <<>> /\ ~ev.ok /\ ev.after = ev.before
        \/ /\ ev.ok /\ ev.n = Len(f.pts) /\ Len(ev.after) = b + ev.n /\ SubSeq(ev.after, 1, b) = ev.before
           /\ PointsRead(f, 0, ev.defs, SubSeq(ev.after, b + 1, b + ev.n))) = TRUE
TCopy == Is("copy") /\ UNCHANGED <<open, pos>> /\ fs' = (IF ev.from \in DOMAIN fs THEN Put(fs, ev.path, fs[ev.from]) ELSE fs)
TRemove == Is("remove") /\ UNCHANGED <<open, pos>> /\ fs' = Drop(fs, ev.path)
\* a reader for a path
TOpen == Is("open") /\ UNCHANGED fs /\ pos' = 0 /\
  LET can == Readable(fs, ev.path, KindOf(ev.ext)) IN
  open' = (IF can THEN ev.path ELSE "") /\ ev.ok = can /\ (can => (ev.total = Len(fs[ev.path].pts) /\ HasLayout(fs[ev.path], ev.defs)) = TRUE)
TPart == Is("part") /\ UNCHANGED <<fs, open>> /\ open # "" /\
  LET f == fs[open]
      n == Reads(Len(f.pts), pos, ev.count)
  IN pos' = pos + n /\ (IF n = 0 THEN ~ev.ok \/ ev.got = <<>> ELSE ev.ok /\ Len(ev.got) = n /\ PointsRead(f, pos, ev.defs, ev.got)) = TRUE
TSeek == Is("seek") /\ UNCHANGED <<fs, open>> /\ open # "" /\
  LET total == Len(fs[open].pts)
      t == Target(total, pos, ev.whence, ev.off)
  IN pos' = (IF t < 0 THEN pos ELSE Clamped(total, t)) /\ (IF t < 0 THEN ~ev.ok ELSE ev.ok /\ ev.at = Clamped(total, t)) = TRUE
Next == TFresh \/ TWrite \/ TRead \/ TInto \/ TCopy \/ TRemove \/ TOpen \/ TPart \/ TSeek
Spec == Init /\ [][Next]_vars
TypeOK == TRUE
Accepted == TLCGet("stats").diameter - 1 = Len(Log) - Start + 1
=============================================================================
