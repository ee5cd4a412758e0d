----------------------------- MODULE GenConversion -----------------------------
(* All converters between layouts of up to two attributes of a few types:     *)
(* with default mappings only, and with every single custom mapping (thorough: *)
(* every two of them).                                                        *)
EXTENDS Conversion, FiniteSetsExt, Json, IOUtils, TLC
VARIABLE done
Init == from = <<>> /\ to = <<>> /\ map = <<>> /\ done = FALSE
Next == FALSE /\ UNCHANGED <<from, to, map, done>>
Deep == IOEnv.TIER = "thorough"
Types == IF Deep THEN {"U8", "F32", "Vec3u8", "Vec3f64", "Vec4u8"} ELSE {"U8", "F32", "Vec3u8", "Vec4u8"}
More == {"I16", "F64", "Vec3u16"}
Lists(ns, ts, k) == UNION { { f \in [1..m -> [n : ns, t : ts]] : Cardinality({ f[i].n : i \in 1..m }) = m } : m \in 1..k }
Shapes == { <<f, t>> : f \in { f \in Lists({"a", "b"}, Types, 2) : f[1].n = "a" }, t \in Lists({"a", "b", "c"}, Types, IF Deep THEN 2 ELSE 1) } \cup
          { <<f, t>> : f \in Lists({"a", "b"}, {"U8", "F32"}, 2), t \in Lists({"a", "b", "c"}, {"U8", "I16", "F32"}, 2) } \cup
          { <<f, t>> : f \in { <<[n |-> "a", t |-> x], [n |-> "b", t |-> y]>> : x \in More, y \in More },
                       t \in { <<[n |-> "b", t |-> x], [n |-> "a", t |-> y]>> : x \in More, y \in More } }
Map1(s) == { <<[i |-> i, j |-> j, x |-> x, pre |-> p]>> : i \in DOMAIN s[1], j \in DOMAIN s[2], x \in {0, 1}, p \in BOOLEAN }
Real(m) == \A k \in DOMAIN m : m[k].x = 0 => ~m[k].pre
Map2(s) == { a \o b : a \in Map1(s), b \in Map1(s) }
Maps(s) == { m \in {<<>>} \cup Map1(s) \cup (IF Deep /\ Len(s[1]) = 2 /\ Len(s[2]) = 2 /\ s[1][1].t = "U8" /\ s[1][2].t \in {"U8", "F32"} THEN Map2(s) ELSE {}) : Real(m) }
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({ [from |-> s[1], to |-> s[2], all |-> SetToSeq(Maps(s))] : s \in Shapes }))
=============================================================================
