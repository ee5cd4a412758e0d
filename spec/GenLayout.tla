------------------------------- MODULE GenLayout -------------------------------
(* Histories of building layouts, for the code: all lists of up to two        *)
(* attributes (thorough: three), built at once with every packing and one by  *)
(* one with every combination of packings; all near-equal pairs of layouts.   *)
EXTENDS Layout, Json, IOUtils, TLC
VARIABLE done
Init == done = FALSE
Next == FALSE /\ UNCHANGED done

Deep == IOEnv.TIER = "thorough"
Raw(t, n, m) == [t |-> t, n |-> n, m |-> m, u |-> IF t = "Custom" THEN 1 ELSE 0]
Types == { Prim(t) : t \in {"U8", "I16", "F32", "F64", "Vec3u8", "Vec3u16", "Vec3f32", "Vec4u8"} } \cup
         { Raw("ByteArray", n, 0) : n \in {1, 3, 8} } \cup { Raw("Custom", 16, 16), Raw("Custom", 12, 4) }
Few == { Prim("U8"), Prim("F32"), Prim("Vec3u16"), Prim("F64"), Raw("ByteArray", 3, 0), Raw("Custom", 32, 16) }
Def(n, d) == [n |-> n, d |-> d]
Lists == {<<>>} \cup { <<Def("a", x)>> : x \in Types } \cup { <<Def("a", x), Def("b", y)>> : x \in Types, y \in Types }
         \cup (IF Deep THEN { <<Def("a", x), Def("b", y), Def("c", z)>> : x \in Types, y \in Types, z \in Types }
                       ELSE { <<Def("a", x), Def("b", y), Def("c", z)>> : x \in Few, y \in Few, z \in Few })
From == { <<[e |-> "from", s |-> 1, defs |-> ds, p |-> p]>> : ds \in Lists, p \in {0, 1, 2, 4} }
Adds == { <<[e |-> "add", s |-> 1, def |-> Def("a", x), p |-> p], [e |-> "add", s |-> 1, def |-> Def("b", y), p |-> q]>>
          : x \in Types, y \in Types, p \in {0, 1, 2, 4}, q \in {0, 1, 2} } \cup
        (IF Deep THEN { <<[e |-> "from", s |-> 1, defs |-> <<Def("a", x), Def("b", y)>>, p |-> p], [e |-> "add", s |-> 1, def |-> Def("c", z), p |-> q]>>
          : x \in Types, y \in Types, z \in Types, p \in {0, 1, 2}, q \in {0, 1, 2} } ELSE {})
\* members in any order in memory, touching, overlapping or apart
Members == { <<[e |-> "members", s |-> 1, al |-> al, ms |-> <<[n |-> "a", d |-> x, o |-> o1], [n |-> "b", d |-> y, o |-> o2]>>]>>
             : x \in {Prim("U8"), Prim("I16"), Prim("Vec3u8")}, y \in {Prim("U8"), Prim("F32")}, o1 \in 0..5, o2 \in 0..5, al \in (IF Deep THEN {1, 2, 4} ELSE {1, 4}) }
\* layouts that are almost the same
Close == { <<Def("a", Prim("U8"))>>, <<Def("a", Prim("I8"))>>, <<Def("b", Prim("U8"))>>, <<>>,
           <<Def("a", Prim("U8")), Def("b", Prim("U8"))>>, <<Def("b", Prim("U8")), Def("a", Prim("U8"))>>, <<Def("a", Prim("U8")), Def("c", Prim("U8"))>>,
           <<Def("a", Prim("U8")), Def("b", Prim("I8"))>>, <<Def("a", Prim("I8")), Def("b", Prim("U8"))>>, <<Def("a", Prim("U8")), Def("b", Prim("U16"))>>,
           <<Def("b", Prim("U16")), Def("a", Prim("U8"))>>, <<Def("a", Raw("ByteArray", 2, 0))>>, <<Def("a", Raw("ByteArray", 3, 0))>>,
           <<Def("a", Raw("Custom", 4, 4))>>, <<Def("a", Raw("Custom", 4, 2))>>, <<Def("a", [Raw("Custom", 4, 4) EXCEPT !.u = 2])>>,
           <<Def("a", Prim("U8")), Def("b", Prim("U8")), Def("c", Prim("U8"))>>, <<Def("c", Prim("U8")), Def("a", Prim("U8")), Def("b", Prim("U8"))>> }
Pairs == { <<[e |-> "from", s |-> 1, defs |-> x, p |-> p], [e |-> "from", s |-> 2, defs |-> y, p |-> q], [e |-> "cmp", a |-> 1, b |-> 2]>>
           : x \in Close, y \in Close, p \in {0, 1}, q \in {0, 1} } \cup
         \* the same attributes at other offsets, with another size or alignment
         { <<[e |-> "members", s |-> 1, al |-> 1, ms |-> <<[n |-> "a", d |-> Prim("U8"), o |-> 0], [n |-> "b", d |-> Prim("U8"), o |-> 1]>>],
             [e |-> "members", s |-> 2, al |-> al, ms |-> <<[n |-> x[1], d |-> Prim("U8"), o |-> x[2]], [n |-> x[3], d |-> Prim("U8"), o |-> x[4]]>>],
             [e |-> "cmp", a |-> 1, b |-> 2]>>
           : al \in {1, 2, 4}, x \in { <<"a", i, "b", j>> : i \in 0..2, j \in 0..2 } \cup { <<"b", i, "a", j>> : i \in 0..2, j \in 0..2 } }
Cases == CASE IOEnv.PROP = "L02" -> Pairs \cup From
           [] IOEnv.PROP = "L01" -> From \cup Adds \cup Members
           [] OTHER -> From \cup Members
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({ [ops |-> c] : c \in Cases }))
=============================================================================
