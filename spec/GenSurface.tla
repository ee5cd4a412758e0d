------------------------------- MODULE GenSurface -------------------------------
(* All small clouds in a plane, in space and on a line, with all sizes of     *)
(* neighbourhoods.                                                            *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Json, IOUtils, TLC
VARIABLE done
Init == done = FALSE
Next == FALSE /\ UNCHANGED done
Deep == IOEnv.TIER = "thorough"
Plane == { <<x, y, 0>> : x \in 0..2, y \in 0..(IF Deep THEN 2 ELSE 1) }
Tilted == { <<x, y, x + 2 * y>> : x \in 0..2, y \in 0..1 }
Cube == { <<x, y, z>> : x \in 0..1, y \in 0..1, z \in 0..1 }
Tall == { <<x, y, 3 * z>> : x \in 0..1, y \in 0..1, z \in 0..1 }
Clouds == kSubset(3, Plane) \cup kSubset(4, Plane) \cup kSubset(3, Tilted) \cup kSubset(4, Tilted) \cup kSubset(4, Cube) \cup kSubset(5, Tall)
          \cup (IF Deep THEN kSubset(5, Cube) \cup kSubset(6, Cube) \cup kSubset(4, Tall) \cup kSubset(5, Plane) ELSE {})
          \cup kSubset(2, Tilted) \cup kSubset(1, Tilted) \cup { {} }
Ks(n) == IF Deep THEN 2..(n + 1) ELSE { 3, n }
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(UNION { { [ps |-> SetToSeq(S), k |-> k] : k \in Ks(Cardinality(S)) } : S \in Clouds }))
=============================================================================
