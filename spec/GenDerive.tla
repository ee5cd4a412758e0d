------------------------------- MODULE GenDerive -------------------------------
(* Point types to be compiled: all pairs (thorough: also triples) of fields   *)
(* of different sizes and alignments, under every kind of representation, of  *)
(* which every combination of representation and pair of alignments occurs.   *)
EXTENDS Layout, Json, IOUtils, TLC
VARIABLE done
Init == done = FALSE
Next == FALSE /\ UNCHANGED done
Deep == IOEnv.TIER = "thorough"
Classes == <<"U8", "U16", "F32", "I64", "Vec3u8", "Vec3u16", "Vec4u8", "Vec3i32", "Vec3f64">>
N == Len(Classes)
Reprs == << <<"C", 0>>, <<"C, packed", 1>>, <<"C, packed(2)", 2>>, <<"C, packed(4)", 4>>, <<"C, packed(8)", 8>>, <<"packed(2), C", 2>>, <<"C, align(16)", -2>> >>
R == Len(Reprs)
Struct(fs, r) == [fs |-> [i \in DOMAIN fs |-> Classes[fs[i]]], rep |-> Reprs[r][1], p |-> Reprs[r][2]]
Pairs == { <<i, j, r>> \in (1..N) \X (1..N) \X (1..R) : Deep \/ r = 1 \/ (i + 2 * j + 3 * r) % 9 = 0 }
Triples == { <<i, j, k>> \in (1..N) \X (1..N) \X (1..N) : i # j /\ j # k /\ (IF Deep THEN (i + j + k) % 3 = 0 ELSE (i + 2 * j + 4 * k) % 16 = 0) }
Cases == { Struct(<<q[1], q[2]>>, q[3]) : q \in Pairs } \cup { Struct(<<q[1], q[2], q[3]>>, IF q[1] % 2 = 0 THEN 1 ELSE (q[2] % R) + 1) : q \in Triples } \cup { Struct(<<i>>, r) : i \in 1..N, r \in 1..R }
\* a point of the specification for each of them: its layout is sound
ASSUME \A c \in Cases : c.p >= 0 => Sane(FromAttributes([i \in DOMAIN c.fs |-> [n |-> ToString(i), d |-> Prim(c.fs[i])]], c.p))
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
=============================================================================
