------------------------------- MODULE MCUntyped -------------------------------
(* One untyped point and all short histories of accesses to it, with what the *)
(* client knows: the bytes it last wrote to every attribute.                  *)
EXTENDS Untyped, TLC
CONSTANTS Types, Bytes, MaxOps
VARIABLES lay, mem,
          wrote,   \* per attribute: what is known to be there (<<>>: what was there in the beginning)
          first,   \* the memory in the beginning
          ops
vars == <<lay, mem, wrote, first, ops>>
Defs2 == { <<>> } \cup { <<[n |-> "a", d |-> Prim(t)]>> : t \in Types } \cup { <<[n |-> "a", d |-> Prim(t)], [n |-> "b", d |-> Prim(u)]>> : t, u \in Types }
Rev(ms) == [i \in DOMAIN ms |-> ms[Len(ms) + 1 - i]]
Lays == UNION { { FromAttributes(ds, 0), FromAttributes(ds, 1), [FromAttributes(ds, 1) EXCEPT !.attrs = Rev(@)] } : ds \in Defs2 }
Init == /\ lay \in Lays
        /\ \E len \in 0..(lay.size + 1) : mem \in { [i \in 1..len |-> b] : b \in Bytes }
        /\ first = mem /\ wrote = [i \in DOMAIN lay.attrs |-> <<>>] /\ ops = 0
Names == {"a", "b", "c"}
Values(t) == [1..PrimSize[t] -> Bytes]
Does == ops < MaxOps /\ ops' = ops + 1 /\ UNCHANGED <<lay, first>>
SetRaw == Does /\ \E n \in Names, t \in Types : \E v \in Values(t) \cup {<<>>} : LET def == [n |-> n, d |-> Prim(t)] IN
  IF Accessible(lay, mem, def) /\ Len(v) = SizeOf(def.d)
  THEN LET i == IndexOfDef(lay, n, def.d) IN mem' = WithField(mem, lay.attrs[i], v) /\ wrote' = [wrote EXCEPT ![i] = v]
  ELSE UNCHANGED <<mem, wrote>>
\* the bytes of a value of type f converted to t (any of those allowed)
Bytes8(b) == [k \in 1..(Len(b) \div 8) |-> ToNat(SubSeq(b, 8 * k - 7, 8 * k))]
RECURSIVE Join(_)
Join(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Join(Tail(ss))
Conv(f, t, v) == IF f = t THEN v ELSE LET c == Comps(Prim(f), v) IN Join([k \in DOMAIN c |-> Bytes8(Cast(ElemOf[f], ElemOf[t], c[k]))])
Set == Does /\ \E n \in Names, t, f \in Types : \E v \in Values(f) : LET def == [n |-> n, d |-> Prim(t)] IN
  IF Accessible(lay, mem, def) /\ CanConvert(Prim(f), def.d)
  THEN LET i == IndexOfDef(lay, n, def.d) w == Conv(f, t, v) IN
       mem' = WithField(mem, lay.attrs[i], w) /\ wrote' = [wrote EXCEPT ![i] = w]
  ELSE UNCHANGED <<mem, wrote>>
Next == SetRaw \/ Set
Spec == Init /\ [][Next]_vars

SameSize == Len(mem) = Len(first)
\* every attribute shows what was last written to it, the others and the gaps what was there
ReadBack == \A i \in DOMAIN lay.attrs : LET m == lay.attrs[i] IN
  EndOf(m) <= Len(mem) => Field(mem, m) = (IF wrote[i] = <<>> THEN Field(first, m) ELSE wrote[i])
Frame == \A k \in DOMAIN mem : (\A i \in DOMAIN lay.attrs : ~(lay.attrs[i].o < k /\ k <= EndOf(lay.attrs[i])) \/ wrote[i] = <<>>) => mem[k] = first[k]
TooShort == \A i \in DOMAIN lay.attrs : EndOf(lay.attrs[i]) > Len(mem) => wrote[i] = <<>>
\* an attribute is found by its name and type only, and a read gives something for every supported type
Access == \A n \in Names, t \in Types : Accessible(lay, mem, [n |-> n, d |-> Prim(t)]) =>
  /\ MemberOf(lay, [n |-> n, d |-> Prim(t)]).n = n /\ MemberOf(lay, [n |-> n, d |-> Prim(t)]).d = Prim(t)
  /\ \A u \in Types : CanConvert(Prim(t), Prim(u)) => LET b == Field(mem, MemberOf(lay, [n |-> n, d |-> Prim(t)])) IN SameValue(Prim(t), b, Prim(u), Conv(t, u, b))
\* a point converted attribute by attribute to any layout is what PointConverted demands, and it is the only one with these gaps
OneByOne(lb, before) == FoldLeft(LAMBDA m, j : LET b == lb.attrs[j] i == IndexOfName(lay, b.n) IN
    IF i = 0 \/ ~CanConvert(lay.attrs[i].d, b.d) THEN m ELSE WithField(m, b, Conv(lay.attrs[i].d.t, b.d.t, Field(mem, lay.attrs[i]))), before, [j \in DOMAIN lb.attrs |-> j])
Whole == Len(mem) = lay.size /\ ops = 0 => \A lb \in Lays : LET before == [i \in 1..lb.size |-> 9] after == OneByOne(lb, before) IN
  /\ PointConverted(lay, mem, lb, before, after)
  /\ \A k \in DOMAIN after : after[k] < 255 => ~PointConverted(lay, mem, lb, before, [after EXCEPT ![k] = @ + 1])
=============================================================================
