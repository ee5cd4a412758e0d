-------------------------------- MODULE GenPnts --------------------------------
(* Every combination of attributes (and the types they are given in), every   *)
(* short history of a writer and of a reader.                                 *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
VARIABLE done
Init == done = FALSE
Next == FALSE /\ UNCHANGED done
Deep == IOEnv.TIER = "thorough"
Vec3s == {"Vec3u8", "Vec3u16", "Vec3i32", "Vec3f32", "Vec3f64"}
Attr == { <<n, t>> : n \in {"Position3D", "ColorRGB", "Normal"}, t \in Vec3s } \cup { <<"ColorRGBA", "Vec4u8">>, <<"Intensity", "U16">> }
Lists == { <<a>> : a \in Attr } \cup { <<a, b>> : a, b \in { x \in Attr : Deep \/ x[2] \in {"Vec3f64", "Vec3u8", "Vec4u8", "U16"} } }
Distinct(l) == \A i, j \in DOMAIN l : i # j => l[i][1] # l[j][1]
W(l, ops) == [role |-> "w", attrs |-> l, ops |-> ops]
Op == { <<"write", 1>>, <<"write", 3>>, <<"flush", 0>>, <<"center", 0>>, <<"other", 0>>, <<"write", 0>> }
Own == << <<"Position3D", "Vec3f32">>, <<"ColorRGB", "Vec3u8">> >>
Conv == << <<"ColorRGBA", "Vec4u8">>, <<"Position3D", "Vec3f64">>, <<"Intensity", "U16">> >>
Hist == { <<a>> : a \in Op } \cup { <<a, b>> : a, b \in Op } \cup { <<a, b, c>> : a, b, c \in Op \ (IF Deep THEN {} ELSE {<<"write", 0>>}) }
Wr == { W(l, <<<<"write", 2>>>>) : l \in { x \in Lists : Distinct(x) } } \cup { W(l, h) : l \in {Own, Conv}, h \in Hist }
Rd(w, n, rtc, ops) == [role |-> "r", which |-> w, n |-> n, rtc |-> rtc, ops |-> ops]
Moves == { <<"start", k>> : k \in {0, 1, 3, 4} } \cup { <<"end", -k>> : k \in {0, 1, 3, 4} } \cup { <<"current", k>> : k \in {-2, -1, 0, 1, 3} } \cup { <<"read", k>> : k \in {0, 1, 2, 4} } \cup {<<"end", 1>>, <<"mode", 0>>, <<"mode", 1>>}
Rds == { Rd(<<"POSITION", "RGB">>, 3, rtc, <<a, b, <<"at", 0>>, c>>) : rtc \in BOOLEAN, a \in Moves, b \in Moves, c \in {<<"read", 2>>} }
       \cup { Rd(SetToSeq(s), n, rtc, <<<<"read", 1>>, <<"read", 2>>, <<"at", 0>>>>) : s \in SUBSET {"POSITION", "RGBA", "RGB", "NORMAL"}, n \in 0..3, rtc \in BOOLEAN }
Sound(c) == ~c.rtc \/ \E i \in DOMAIN c.which : c.which[i] = "POSITION"
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Wr) \o SetToSeq({ c \in Rds : Sound(c) }))
=============================================================================
