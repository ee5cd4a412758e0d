------------------------------- MODULE MCLayout -------------------------------
(* Model checking of Layout: every way of adding up to MaxAttrs attributes of *)
(* the given data types, one by one, each with any packing.  What the         *)
(* building operations promise is stated here without RoundUp.                *)
EXTENDS Layout

CONSTANTS MaxAttrs, Packings, Small
VARIABLES lay, defs, packs, prev
vars == <<lay, defs, packs, prev>>

Raw(t, n, m) == [t |-> t, n |-> n, m |-> m, u |-> IF t = "Custom" THEN 1 ELSE 0]
Types == IF Small THEN { Prim("U8"), Prim("U16"), Prim("F64"), Raw("ByteArray", 3, 0), Raw("Custom", 32, 16) }
         ELSE { Prim(t) : t \in {"U8", "I16", "F32", "F64", "Vec3u8", "Vec3u16"} } \cup
              { Raw("ByteArray", n, 0) : n \in {0, 3} } \cup { Raw("Custom", 16, 16), Raw("Custom", 12, 4) }
Names == <<"a", "b", "c", "d">>

Init == lay = Empty /\ defs = <<>> /\ packs = <<>> /\ prev = Empty
Next == /\ Len(defs) < MaxAttrs
        /\ \E d \in Types : \E p \in Packings :
             LET def == [n |-> Names[Len(defs) + 1], d |-> d] IN
             /\ CanAdd(lay, def)
             /\ lay' = Added(lay, def, p) /\ prev' = lay
             /\ defs' = Append(defs, def) /\ packs' = Append(packs, p)
Spec == Init /\ [][Next]_vars

n == Len(lay.attrs)
SaneLayout == Sane(lay) /\ n = Len(defs) /\ \A i \in 1..n : lay.attrs[i].n = defs[i].n /\ lay.attrs[i].d = defs[i].d
Smallest(x, lower, a) == x >= lower /\ x % a = 0 /\ \A y \in lower..(x - 1) : y % a # 0
\* the newest attribute is at the lowest admissible offset; everything else is where it was
LowestOffset == n > 0 => Smallest(lay.attrs[n].o, EndAll(prev), FieldAlign(lay.attrs[n].d, packs[n]))
Untouched == n > 0 => \A i \in 1..(n - 1) : lay.attrs[i] = prev.attrs[i]
NeverSmaller == lay.size >= prev.size
PointSize == n > 0 => Smallest(lay.size, Max2(prev.size, EndOf(lay.attrs[n])), lay.align)
Alignment == /\ lay.align \in {1, 2, 4, 8, 16}
             /\ n > 0 => lay.align = (LET m == Max({prev.align, AlignOf(lay.attrs[n].d)}) IN IF packs[n] = 0 THEN m ELSE Min({m, packs[n]}))
\* built at once is built one by one
Uniform == \A p \in Packings : (\A i \in DOMAIN packs : packs[i] = p) => FromAttributes(defs, p) = lay
\* a layout can be rebuilt from its own members, and no attribute can be added twice
Rebuild == /\ ValidMembers(lay.attrs) \/ \E i \in 1..n : SizeOf(lay.attrs[i].d) = 0
           /\ FromMembers(lay.attrs, lay.align).size <= lay.size
           /\ FromMembers(lay.attrs, lay.align).attrs = lay.attrs
           /\ \A i \in 1..n : ~CanAdd(lay, defs[i])
\* looking up what was put in
Lookups == \A i \in 1..n : /\ IndexOfName(lay, defs[i].n) = i /\ IndexOfDef(lay, defs[i].n, defs[i].d) = i
                           /\ \A d \in Types : d # defs[i].d => IndexOfDef(lay, defs[i].n, d) = 0
                           /\ SameAttributes(lay, [lay EXCEPT !.attrs = Reverse(@)])
                           /\ ~SameAttributes(lay, prev)
=============================================================================
