------------------------------ MODULE GenReproject ------------------------------
(* Histories of calls on two small clouds: all ways in which points share     *)
(* places, equal and unequal sizes, usable and unusable systems, within and   *)
(* between, one call after the other.                                         *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
VARIABLE done
Init == done = FALSE
Next == FALSE /\ UNCHANGED done
Deep == IOEnv.TIER = "thorough"
Sites == 1..(IF Deep THEN 3 ELSE 2)
Clouds(n) == { c \in [1..n -> Sites] : \A i \in 1..n : c[i] = 1 \/ \E j \in 1..(i - 1) : c[j] = c[i] - 1 }  \* up to renaming
Calls == { <<kind, valid, sys>> : kind \in {"within", "between"}, valid \in BOOLEAN, sys \in 1..(IF Deep THEN 2 ELSE 1) }
Histories == { <<c>> : c \in Calls } \cup { <<c, d>> : c, d \in Calls }
Cases == { [a |-> x, b |-> y, calls |-> h] : x \in UNION { Clouds(n) : n \in 0..(IF Deep THEN 3 ELSE 2) }, y \in UNION { Clouds(n) : n \in 0..2 }, h \in Histories }
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
=============================================================================
