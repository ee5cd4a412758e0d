-------------------------------- MODULE Untyped --------------------------------
(* A single point as raw memory: a sequence of bytes, described by a layout.  *)
EXTENDS Casts

BitsOfByte(x) == FromNat(x, 8)
RECURSIVE BitsOf(_)
BitsOf(bytes) == IF bytes = <<>> THEN <<>> ELSE BitsOfByte(bytes[1]) \o BitsOf(Tail(bytes))

\* the components of the value of data type d stored in bytes
Comps(d, bytes) == LET s == ElemSize[d.t] IN [k \in 1..Elems[d.t] |-> BitsOf(SubSeq(bytes, (k-1) * s + 1, k * s))]

Field(mem, m) == SubSeq(mem, m.o + 1, EndOf(m))
WithField(mem, m, bytes) == [i \in DOMAIN mem |-> IF m.o < i /\ i <= EndOf(m) THEN bytes[i - m.o] ELSE mem[i]]

\* bytes b of type t are the conversion of bytes a of type f
SameValue(f, a, t, b) ==
  IF f = t THEN b = a
  ELSE /\ Supported(f.t, t.t) /\ Len(b) = SizeOf(t) /\ Len(a) = SizeOf(f)
       /\ ConvertedOK(f.t, t.t, Comps(f, a), Comps(t, b))

\* an attribute can be accessed if the layout has it and the memory reaches that far
Accessible(lay, mem, def) ==
  LET i == IndexOfDef(lay, def.n, def.d) IN i # 0 /\ EndOf(lay.attrs[i]) <= Len(mem)
MemberOf(lay, def) == lay.attrs[IndexOfDef(lay, def.n, def.d)]

\* converting a point: every attribute that both layouts have, and nothing else
Shared(la, lb) == { <<i, j>> \in (DOMAIN la.attrs) \X (DOMAIN lb.attrs) : la.attrs[i].n = lb.attrs[j].n }
CanConvert(f, t) == f = t \/ Supported(f.t, t.t)
AllConvertible(la, lb) == \A p \in Shared(la, lb) : CanConvert(la.attrs[p[1]].d, lb.attrs[p[2]].d)
PointConverted(la, ma, lb, before, after) ==
  /\ Len(after) = Len(before)
  /\ \A p \in Shared(la, lb) :
       LET a == la.attrs[p[1]]
           b == lb.attrs[p[2]]
       IN CanConvert(a.d, b.d) => SameValue(a.d, Field(ma, a), b.d, Field(after, b))
  /\ \A k \in DOMAIN before :
       (\A p \in Shared(la, lb) : LET b == lb.attrs[p[2]] IN ~(CanConvert(la.attrs[p[1]].d, b.d) /\ b.o < k /\ k <= EndOf(b)))
       => after[k] = before[k]
=============================================================================
