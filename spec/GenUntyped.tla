------------------------------- MODULE GenUntyped -------------------------------
(* Histories of one untyped point: every access to layouts of up to three     *)
(* attributes with all memory sizes around the right one, and every write     *)
(* followed by every read.                                                    *)
EXTENDS Layout, Json, IOUtils, TLC
VARIABLE done
Init == done = FALSE
Next == FALSE /\ UNCHANGED done
Deep == IOEnv.TIER = "thorough"
T2 == IF Deep THEN {"U8", "I16", "F64", "Vec3u8"} ELSE {"U8", "I16", "Vec3u8"}
Def(n, t) == [n |-> n, d |-> Prim(t)]
Defs3 == { <<>> } \cup { <<Def("a", t)>> : t \in T2 } \cup { <<Def("a", t), Def("b", u)>> : t, u \in T2 }
         \cup (IF Deep THEN { <<Def("a", "U8"), Def("b", t), Def("c", "U16")>> : t \in T2 } ELSE {})
Rev(l) == [l EXCEPT !.attrs = [i \in DOMAIN l.attrs |-> l.attrs[Len(l.attrs) + 1 - i]]]
Wide(l) == FromMembers([i \in DOMAIN l.attrs |-> [l.attrs[i] EXCEPT !.o = @ + i]], 1)
Lays == UNION { { FromAttributes(ds, 0), FromAttributes(ds, 1), Rev(FromAttributes(ds, 1)), Wide(FromAttributes(ds, 1)) } : ds \in Defs3 }
\* which attribute is asked for: a name and a type
Asks(l) == { <<l.attrs[i].n, l.attrs[i].d.t>> : i \in DOMAIN l.attrs } \cup { <<"nope", "U8">> }
           \cup (IF l.attrs = <<>> THEN {} ELSE { <<l.attrs[1].n, "U32">> })
TypedAs == {"U8", "I16", "F32", "Vec3u8", "Vec3f64"} \cup (IF Deep THEN {"I64", "Vec4u8", "Vec3i32"} ELSE {})
Op(o, q, x, t) == [op |-> o, n |-> q[1], d |-> q[2], x |-> x, t |-> t]
Writes(l) == UNION { { Op("setraw", q, x, "") : x \in -1..1 } \cup { Op("mutraw", q, 0, "") } \cup { Op("set", q, 0, t) : t \in TypedAs \cup { q[2] } } : q \in Asks(l) } \cup { Op("cursor", <<"", "U8">>, p, "") : p \in 0..l.size }
Reads(l) == UNION { { Op("getraw", q, 0, "") } \cup { Op("get", q, 0, t) : t \in TypedAs \cup { q[2] } } : q \in Asks(l) }
One == UNION { { [lay |-> l, len |-> n, owned |-> FALSE, ops |-> SetToSeq(Writes(l) \cup Reads(l))] : n \in { m \in {0, l.size - 2, l.size - 1, l.size, l.size + 1} : m >= 0 } } : l \in Lays }
\* each write with all reads after it
After(l, w) == <<w>> \o SetToSeq({ r \in Reads(l) : r.op = "getraw" \/ r.t \in {"F32", "Vec3f64"} })
Two == { [lay |-> l, len |-> l.size, owned |-> TRUE, ops |-> FoldLeft(LAMBDA s, w : s \o After(l, w), <<>>, SetToSeq({ w \in Writes(l) : w.x = 0 /\ w.n # "nope" }))] : l \in Lays }
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(One) \o SetToSeq(Two))
=============================================================================
