------------------------------- MODULE GenPusher -------------------------------
(* Every session of up to three calls (thorough: four) on buffers of one to   *)
(* three attributes: attribute 0 is one the layout does not have; the values  *)
(* are made up by the replay.                                                 *)
EXTENDS Integers, Sequences, SequencesExt, Json, IOUtils, TLC
VARIABLE done
Init == done = FALSE
Next == FALSE /\ UNCHANGED done
Deep == IOEnv.TIER = "thorough"
Call(na) == [at : 0..na, k : 0..2]
Sessions(na) == UNION { [1..n -> Call(na)] : n \in 0..(CASE na = 3 /\ ~Deep -> 2 [] na < 3 /\ Deep -> 4 [] OTHER -> 3) } \cup
                { f \in [1..(na + 1) -> [at : 1..na, k : {1, 2}]] : na < 3 \/ Deep } \cup
                { f \in [1..na -> [at : 1..na, k : {2}]] : TRUE }
Cases == { [na |-> na, calls |-> s, fin |-> fin] : na \in 1..2, s \in Sessions(1) \cup Sessions(2), fin \in {"done", "drop"} } \cup
         { [na |-> 3, calls |-> s, fin |-> "done"] : s \in Sessions(3) }
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq({ c \in Cases : \A i \in DOMAIN c.calls : c.calls[i].at <= c.na }))
=============================================================================
