-------------------------------- MODULE GenVoxel --------------------------------
(* All clouds of up to three points in a row or on a small grid, with all     *)
(* small leaf sizes: every way in which points share marks.                   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Json, IOUtils, TLC
VARIABLE done
Init == done = FALSE
Next == FALSE /\ UNCHANGED done
Deep == IOEnv.TIER = "thorough"
Row(n) == [1..n -> 0..(IF n = 4 THEN 4 ELSE 5)]
Rows == UNION { { [ps |-> [i \in 1..n |-> <<c[i], 0, 0>>], leaf |-> <<s, 1, 2>>] : c \in { c \in Row(n) : c[1] = 0 \/ n < 3 }, s \in 1..4 } : n \in 1..(IF Deep THEN 4 ELSE 3) }
Grid == { <<x, y, z>> : x \in 0..2, y \in 0..2, z \in 0..(IF Deep THEN 1 ELSE 0) }
Planes == UNION { { [ps |-> SetToSeq(S), leaf |-> <<s, t, 1>>] : S \in kSubset(k, Grid), s \in 1..2, t \in 1..2 } : k \in 2..(IF Deep THEN 4 ELSE 3) }
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Rows) \o SetToSeq(Planes))
=============================================================================
