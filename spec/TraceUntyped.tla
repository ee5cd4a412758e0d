------------------------------ MODULE TraceUntyped ------------------------------
(* Histories of reads and writes of one untyped point: the memory after every *)
(* call is recorded byte for byte.                                            *)
EXTENDS Untyped, Json, TLC, TLCExt, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
Start == atoi(IOEnv.START)
VARIABLES l, lay, mem
vars == <<l, lay, mem>>
Init == l = Start /\ lay = Empty /\ mem = <<>>
ev == Log[l]
Is(e) == l <= Len(Log) /\ ev.e = e /\ l' = l + 1
Same == UNCHANGED <<lay, mem>> /\ ev.mem = mem
Writes(m) == lay' = lay /\ mem' = m /\ ev.mem = m

TNew == Is("new") /\ lay' = ev.lay /\ mem' = ev.mem /\ ev.laysame
        /\ (ev.owned => Len(ev.mem) = ev.lay.size /\ \A i \in DOMAIN ev.mem : ev.mem[i] = 0)

Acc == Accessible(lay, mem, ev.def)
Mem == MemberOf(lay, ev.def)

TGetRaw == Is("getraw") /\ Same /\ (IF Acc THEN ev.ok /\ ev.v = Field(mem, Mem) ELSE ~ev.ok)
TSetRaw == Is("setraw") /\
  IF Acc /\ Len(ev.v) = SizeOf(ev.def.d) THEN ev.ok /\ Writes(WithField(mem, Mem, ev.v)) ELSE ~ev.ok /\ Same
\* through the mutable raw attribute
TMutRaw == Is("mutraw") /\
  IF Acc THEN ev.ok /\ ev.before = Field(mem, Mem) /\ Writes(WithField(mem, Mem, ev.v)) ELSE ~ev.ok /\ Same
TGet == Is("get") /\ Same /\
  IF Acc /\ CanConvert(ev.def.d, Prim(ev.t)) THEN ev.ok /\ SameValue(ev.def.d, Field(mem, Mem), Prim(ev.t), ev.v) ELSE ~ev.ok
TSet == Is("set") /\
  IF Acc /\ CanConvert(Prim(ev.t), ev.def.d)
  THEN /\ ev.ok /\ Len(ev.mem) = Len(mem)
       /\ SameValue(Prim(ev.t), ev.v, ev.def.d, Field(ev.mem, Mem))
       /\ Writes(WithField(mem, Mem, Field(ev.mem, Mem)))
  ELSE ~ev.ok /\ Same
TCursor == Is("cursor") /\ ev.ok /\
  Writes([i \in DOMAIN mem |-> IF ev.pos < i /\ i <= ev.pos + Len(ev.v) THEN ev.v[i - ev.pos] ELSE mem[i]])

\* nothing outside the memory of the point was written
TFrame == Is("frame") /\ UNCHANGED <<lay, mem>> /\ ev.ok

TRaw == Is("rawconv") /\ UNCHANGED <<lay, mem>> /\
  IF ev.ok THEN PointConverted(ev.la, ev.ma, ev.lb, ev.before, ev.after)
  ELSE ~AllConvertible(ev.la, ev.lb)

Next == TNew \/ TGetRaw \/ TSetRaw \/ TMutRaw \/ TGet \/ TSet \/ TCursor \/ TFrame \/ TRaw
Spec == Init /\ [][Next]_vars
TypeOK == TRUE
Accepted == TLCGet("stats").diameter - 1 = Len(Log) - Start + 1
=============================================================================
