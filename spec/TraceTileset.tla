------------------------------- MODULE TraceTileset -------------------------------
(* Tilesets that are built, written as JSON and read from it.                    *)
EXTENDS Tileset, Json, TLCExt, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
Start == atoi(IOEnv.START)
VARIABLES l, cur, made
vars == <<l, cur, made>>
Init == l = Start /\ cur = Default /\ made = <<>>
ev == Log[l]
Is_(e) == l <= Len(Log) /\ ev.e = e /\ l' = l + 1
Leaves(s) == { s[k] : k \in DOMAIN s }
\* the document has each leaf once
IsDoc(s, D) == Leaves(s) = D /\ Len(s) = Cardinality(D)
TFresh == Is_("fresh") /\ cur' = Default /\ made' = <<>>
TSet == Is_("set") /\ ev.ok = ~Refused(ev.op) /\ cur' = (IF ev.ok THEN Apply(cur, ev.op, made) ELSE Default) /\ UNCHANGED made
\* the tile that was built, its document, and what is read from that
TDone == Is_("done") /\ cur' = Default /\ made' = Append(made, cur) /\
  (ev.tile = cur /\ IsDoc(ev.json, Json(<<>>, cur)) /\ ev.ok /\ ev.back = cur /\ ev.text = cur /\ Leaves(ev.same) = { k \in DOMAIN made : made[k] = cur }) = TRUE
TRead == Is_("read") /\ UNCHANGED <<cur, made>> /\
  LET D == Leaves(ev.json) IN (ev.ok = IsTile(D, <<>>) /\ (ev.ok => ev.tile = ReadTile(D, <<>>))) = TRUE
TReadRoot == Is_("readroot") /\ UNCHANGED <<cur, made>> /\
  LET D == Leaves(ev.json) IN (ev.ok = IsRoot(D) /\ (ev.ok => SameRoot(D, ev.root))) = TRUE
TRoot == Is_("root") /\ UNCHANGED <<cur, made>> /\
  LET r == [ev.given EXCEPT !.tile = made[ev.given.tile]] IN
  (IsDoc(ev.json, RootJson(r)) /\ ev.ok /\ SameRoot(RootJson(r), ev.back)) = TRUE
\* the whole tileset that nothing was said about
TNothing == Is_("nothing") /\ UNCHANGED <<cur, made>> /\
  IsDoc(ev.json, RootJson([version |-> "1.0", tilesetVersion |-> <<>>, err |-> "0.0", tile |-> Default, properties |-> <<>>]))
\* a volume says what it was made of
TVolume == Is_("volume") /\ UNCHANGED <<cur, made>> /\ ev.parts = ev.nums /\ IsDoc(ev.json, VolumeJson(<<>>, [kind |-> ev.kind, nums |-> ev.nums]))
\* the box of bounds: its center and half of its extent along each axis
TBounds == Is_("bounds") /\ UNCHANGED <<cur, made>> /\
  LET mid == [d \in 1..3 |-> ev.min[d] + ev.max[d]]
      half(d) == [k \in 1..3 |-> IF k = d THEN ev.max[d] - ev.min[d] ELSE 0]
  IN ev.twice = mid \o half(1) \o half(2) \o half(3) /\ ev.byref = ev.twice
Next == TFresh \/ TSet \/ TDone \/ TRead \/ TReadRoot \/ TRoot \/ TNothing \/ TVolume \/ TBounds
Spec == Init /\ [][Next]_vars
TypeOK == TRUE
Accepted == TLCGet("stats").diameter - 1 = Len(Log) - Start + 1
=============================================================================
