------------------------------ MODULE TraceLayout ------------------------------
(* The recorded history of building, querying, comparing and serializing real *)
(* layouts has to be a behaviour of Layout.  lays holds the layouts of the    *)
(* scenario; every building call comes with the resulting layout read back.   *)
EXTENDS Layout, Json, TLC, TLCExt, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)
Start == atoi(IOEnv.START)

VARIABLES l, lays
vars == <<l, lays>>

Init == l = Start /\ lays = <<>>
ev == Log[l]
Is(e) == l <= Len(Log) /\ ev.e = e /\ l' = l + 1

TNew == Is("new") /\ lays' = [i \in 1..ev.k |-> Empty] /\ \A i \in 1..ev.k : ev.lays[i] = Empty

\* the layout in slot s becomes v, and that is what reading it back shows
Becomes(v) == ev.ok /\ ev.lay = v /\ lays' = [lays EXCEPT ![ev.s] = v]
Refused    == ~ev.ok /\ ev.lay = lays[ev.s] /\ UNCHANGED lays

TAdd == Is("add") /\
  IF CanAdd(lays[ev.s], ev.def) THEN Becomes(Added(lays[ev.s], ev.def, ev.p)) ELSE Refused
TFrom == Is("from") /\
  IF UniqueNames(ev.defs) THEN Becomes(FromAttributes(ev.defs, ev.p)) ELSE Refused
TMembers == Is("members") /\
  IF ValidMembers(ev.ms) THEN \/ Becomes(FromMembers(ev.ms, ev.al))
                              \/ HasEmptyMember(ev.ms) /\ Refused
  ELSE Refused
TCopy == Is("copy") /\ Becomes(lays[ev.from])

Member(L, i) == IF i = 0 THEN <<>> ELSE <<L.attrs[i]>>
TQuery == Is("query") /\ UNCHANGED lays /\
  LET L == lays[ev.s]
      i == IndexOfDef(L, ev.def.n, ev.def.d)
      j == IndexOfName(L, ev.def.n)
  IN /\ ev.has = (i # 0) /\ ev.hasname = (j # 0)
     /\ ev.get = Member(L, i) /\ ev.byname = Member(L, j)
     /\ ev.index = i - 1 /\ ev.offset = (IF i = 0 THEN -1 ELSE L.attrs[i].o)
     /\ ev.size = L.size

TAt == Is("at") /\ UNCHANGED lays /\
  IF ev.i < Len(lays[ev.s].attrs)
  THEN /\ ev.ok /\ ev.m = lays[ev.s].attrs[ev.i + 1]
       /\ ev.range = <<ev.m.o, EndOf(ev.m)>> /\ ev.size = SizeOf(ev.m.d)
  ELSE ~ev.ok

TCmp == Is("cmp") /\ UNCHANGED lays /\
  LET a == lays[ev.a]
      b == lays[ev.b]
  IN /\ ev.eq = (a = b) /\ ev.ne = (a # b)
     /\ ev.cwo = SameAttributes(a, b)
     /\ (a = b => ev.hash)

TDef == Is("def") /\ UNCHANGED lays /\
  /\ ev.name = ev.a.n /\ ev.size = SizeOf(ev.a.d) /\ ev.align = AlignOf(ev.a.d)
  /\ ev.eq = (ev.a = ev.b) /\ (ev.a = ev.b => ev.hash)
  /\ ev.retyped = [n |-> ev.a.n, d |-> ev.b.d]
  /\ ev.member = [n |-> ev.a.n, d |-> ev.a.d, o |-> ev.o]

\* the data type that pasture uses for a Rust type has the size and alignment of that type
TPrim == Is("prim") /\ UNCHANGED lays /\
  ev.d = Prim(ev.t) /\ ev.size = SizeOf(ev.d) /\ ev.align = AlignOf(ev.d)
TBuiltin == Is("builtin") /\ UNCHANGED lays /\
  \E b \in Range(BuiltinList) : b[1] = ev.c /\ ev.def = [n |-> b[2], d |-> Prim(b[3])]

\* written and read back: an equal value that looks the same
TSerde == Is("serde") /\ UNCHANGED lays /\ ev.ok /\ ev.eq /\ ev.back = lays[ev.s]
TSerdeDef == Is("serdedef") /\ UNCHANGED lays /\ ev.ok /\ ev.eq /\ ev.back = ev.def
TSerdeMember == Is("serdemember") /\ UNCHANGED lays /\ ev.ok /\ ev.eq /\ ev.back = ev.m

\* a layout derived from a struct: the fields in the order they are declared, where the compiler put them (which is what
\* the rules for C structs say, if the representation promises that)
TDerive == Is("derive") /\ UNCHANGED lays /\
  /\ ev.ok /\ UniqueNames(ev.defs)
  /\ ev.lay = [attrs |-> [i \in DOMAIN ev.defs |-> [n |-> ev.defs[i].n, d |-> ev.defs[i].d, o |-> ev.offs[i]]], size |-> ev.size, align |-> ev.align]
  /\ Sane(ev.lay)
  /\ ev.p >= 0 => ev.lay = FromAttributes(ev.defs, ev.p)
  /\ ev.p = -2 => ev.lay.attrs = FromAttributes(ev.defs, 0).attrs
\* and a buffer of such points has the fields' values in its attributes
TFields == Is("fields") /\ UNCHANGED lays /\ ev.ok /\ ev.cols = ev.want /\ ev.back = ev.want

\* names have to be unique
TDuplicate == Is("duplicate") /\ UNCHANGED lays /\ ~ev.ok
\* structs are refused whose fields could not be described: generic ones, ones without a promised representation, with fields
\* of other types, or fields that do not say which attribute they are
TAccepted == Is("accepted") /\ UNCHANGED lays /\
  ev.ok = ( /\ ev.kind = "struct" /\ ~ev.generic /\ ev.repr # <<>>
            /\ ev.type \in {"u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "f32", "f64", "Vector3<u8>", "Vector3<u16>", "Vector3<i32>", "Vector3<f32>", "Vector3<f64>", "Vector4<u8>"}
            /\ ev.attribute \in {"pasture(BUILTIN_INTENSITY)", "pasture(BUILTIN_NIR)", "pasture(attribute = \"a\")"} )

Next == TNew \/ TAdd \/ TFrom \/ TMembers \/ TCopy \/ TQuery \/ TAt \/ TCmp \/ TDef \/ TPrim \/ TBuiltin
     \/ TSerde \/ TSerdeDef \/ TSerdeMember \/ TDerive \/ TFields \/ TDuplicate \/ TAccepted
Spec == Init /\ [][Next]_vars

TypeOK == \A i \in DOMAIN lays : Sane(lays[i])
Accepted == TLCGet("stats").diameter - 1 = Len(Log) - Start + 1
=============================================================================
