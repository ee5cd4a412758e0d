-------------------------------- MODULE GenRansac --------------------------------
(* All clouds of three to five points on small grids, with thresholds at and  *)
(* between the distances that occur.                                          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Json, IOUtils, TLC
VARIABLE done
Init == done = FALSE
Next == FALSE /\ UNCHANGED done
Deep == IOEnv.TIER = "thorough"
Flat == { <<x, y, 0>> : x \in 0..(IF Deep THEN 3 ELSE 2), y \in 0..1 }
Cube == { <<x, y, z>> : x \in 0..1, y \in 0..1, z \in 0..1 }
Sets == kSubset(3, Flat) \cup kSubset(4, Flat) \cup kSubset(4, Cube) \cup (IF Deep THEN kSubset(5, Flat) \cup kSubset(5, Cube) ELSE {}) \cup kSubset(2, Flat)
Seqs == { SetToSeq(S) : S \in Sets } \cup { Append(SetToSeq(S), SetToSeq(S)[1]) : S \in kSubset(3, Cube) }
Thresholds == IF Deep THEN { <<1, 2>>, <<1, 1>>, <<3, 4>>, <<5, 4>> } ELSE { <<3, 4>>, <<1, 1>> }
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({ [ps |-> s, num |-> t[1], den |-> t[2]] : s \in Seqs, t \in Thresholds }))
=============================================================================
