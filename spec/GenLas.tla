--------------------------------- MODULE GenLas ---------------------------------
(* Every format, plain and compressed, with every short history of a writer   *)
(* and of a reader.                                                           *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
VARIABLE done
Init == done = FALSE
Next == FALSE /\ UNCHANGED done
Deep == IOEnv.TIER = "thorough"
Op == { <<"own", 2>>, <<"write", 3>>, <<"flush", 0>>, <<"own", 0>> }
Hist == { <<a>> : a \in Op } \cup { <<a, b>> : a, b \in Op } \cup (IF Deep THEN { <<a, b, c>> : a, b, c \in Op } ELSE {})
Flushes(h) == \E i \in DOMAIN h : h[i][1] = "flush"
Kinds == { <<f, laz>> : f \in 0..10, laz \in BOOLEAN }
\* quickly: every history for some formats, some histories for every format
Few == { << <<"own", 2>> >>, << <<"write", 3>> >>, << <<"write", 3>>, <<"own", 2>> >>, << >> }
Wr == { [role |-> "w", fmt |-> k[1], laz |-> k[2], ops |-> h] : k \in Kinds, h \in { x \in Few : TRUE } }
      \cup { [role |-> "w", fmt |-> k[1], laz |-> k[2], ops |-> h] : k \in { x \in Kinds : Deep \/ x[1] \in {3, 8} }, h \in Hist }
Moves == { <<"start", k>> : k \in {0, 2, 3, 4} } \cup { <<"end", k>> : k \in {-4, -3, 0, 1} } \cup { <<"current", k>> : k \in {-1, 0, 2} } \cup { <<"read", k>> : k \in {0, 1, 2, 4} }
Rds == { [role |-> "r", fmt |-> k[1], laz |-> k[2], n |-> n, ops |-> << <<"read", 1>>, <<"read", 2>>, <<"at", 0>>, <<"read", 1>> >>] : k \in Kinds, n \in 0..(IF Deep THEN 4 ELSE 3) }
       \cup { [role |-> "r", fmt |-> k[1], laz |-> k[2], n |-> 3, ops |-> <<a, b, <<"at", 0>>, <<"read", 2>> >>] : k \in (IF Deep THEN Kinds ELSE { <<1, FALSE>>, <<7, TRUE>> }), a, b \in (IF Deep THEN Moves \ {<<"read", 0>>, <<"current", 0>>} ELSE Moves) }
Possible(k) == ~k.laz \/ (k.role = "w" /\ ~Flushes(k.ops)) \/ (k.role = "r" /\ k.fmt < 9)
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({ k \in Wr \cup Rds : Possible(k) }))
=============================================================================
