------------------------------- MODULE GenHull -------------------------------
(* All clouds from the corners of a cube, all clouds from a 3 x 3 grid in a   *)
(* plane, all small clouds from a 3 x 3 x 2 (thorough: 3 x 3 x 3) grid.       *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Json, IOUtils, TLC
VARIABLE done
Init == done = FALSE
Next == FALSE /\ UNCHANGED done
Deep == IOEnv.TIER = "thorough"
Cube == { <<x, y, z>> : x \in 0..1, y \in 0..1, z \in 0..1 }
Plane == { <<x, y, 0>> : x \in 0..2, y \in 0..2 }
Tilted == { <<x, y, x - y + 2>> : x \in 0..2, y \in 0..2 }
Slab == { <<x, y, z>> : x \in 0..2, y \in 0..2, z \in 0..(IF Deep THEN 2 ELSE 1) }
Clouds == SUBSET Cube \cup SUBSET Plane
          \cup { s \in SUBSET Tilted : Cardinality(s) \in (IF Deep THEN 0..9 ELSE {3, 4}) }
          \cup kSubset(4, Slab)
          \cup (IF Deep THEN kSubset(5, { p \in Slab : p[3] < 2 }) ELSE {})
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({ [ps |-> SetToSeq(s)] : s \in Clouds }))
=============================================================================
