-------------------------------- MODULE GenFiles --------------------------------
(* Every short history of files by path, and every extension.                  *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
VARIABLE done
Init == done = FALSE
Next == FALSE /\ UNCHANGED done
Deep == IOEnv.TIER = "thorough"
Exts == {"las", "LAS", "Las", "lAS", "laz", "LAZ", "Laz", "laZ", "pnts", "PNTS", "Pnts", "pnTS", "txt", "xyz", "", "lasx", "las ", "pnt", "asc", "LA"}
Short == IF Deep THEN {"las", "LAZ", "pnts", "txt"} ELSE {"las", "laz", "PNTS"}
Op(X) == { [op |-> o, x |-> x, k |-> k] : o \in {"write"}, x \in X, k \in {1, 3} } \cup { [op |-> o, x |-> x, k |-> 2] : o \in {"read", "into", "remove", "steps", "parts"}, x \in X }
         \cup { [op |-> "copy", x |-> x, k |-> k] : x \in X, k \in {0} }
One == { << [op |-> "write", x |-> x, k |-> 2], [op |-> o, x |-> x, k |-> 2] >> : x \in Exts, o \in {"read", "into", "parts"} } \cup { << [op |-> "steps", x |-> x, k |-> 2], [op |-> "read", x |-> x, k |-> 2] >> : x \in Exts }
Two == { << a, b, [op |-> o, x |-> b.x, k |-> 1] >> : a, b \in Op(Short), o \in {"read", "into"} }
Three == { << a, b, c, [op |-> "read", x |-> c.x, k |-> 1] >> : a, b, c \in Op({"las", "pnts"}) }
Of(s) == { [ops |-> h] : h \in s }
\* something is written first
Begins(h) == h.ops[1].op \in {"write", "steps"}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({ h \in Of(One) \cup Of(Two) \cup (IF Deep THEN Of(Three) ELSE {}) : Begins(h) }))
=============================================================================
