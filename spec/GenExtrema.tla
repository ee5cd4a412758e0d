------------------------------ MODULE GenExtrema ------------------------------
(* All short columns: up to three (thorough: four) points of three components *)
(* that take the places 0..2 in an ascending list of values.                  *)
EXTENDS Integers, Sequences, SequencesExt, Json, IOUtils, TLC
VARIABLE done
Init == done = FALSE
Next == FALSE /\ UNCHANGED done
Deep == IOEnv.TIER = "thorough"
\* per axis, any order of values; the axes vary together in three ways
Cols(n) == [1..n -> 0..2]
Ways == 0..2
Point(c, w, i, n) == CASE w = 0 -> <<c[i], c[(i % n) + 1], 2 - c[i]>> [] w = 1 -> <<1, c[i], c[((i + 1) % n) + 1]>> [] OTHER -> <<c[i], c[i], 0>>
Clouds == UNION { { [vs |-> [i \in 1..n |-> Point(c, w, i, n)]] : c \in Cols(n), w \in Ways } : n \in 1..(IF Deep THEN 6 ELSE 4) } \cup { [vs |-> <<>>] }
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Clouds))
=============================================================================
