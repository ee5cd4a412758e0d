------------------------------- MODULE GenBoxes -------------------------------
(* All ways in which two boxes, or a box and a point, can lie to each other   *)
(* along each axis.                                                           *)
EXTENDS Integers, Sequences, SequencesExt, Json, IOUtils, TLC
VARIABLE done
Init == done = FALSE
Next == FALSE /\ UNCHANGED done
Deep == IOEnv.TIER = "thorough"
Intervals == { <<x, y>> : x \in 0..2, y \in 0..2 } \ { <<x, y>> \in (0..2) \X (0..2) : x > y }
Rel == Intervals \X Intervals
Third == { << <<0, 1>>, <<1, 2>> >>, << <<0, 0>>, <<1, 1>> >>, << <<0, 2>>, <<1, 1>> >> }
Ways(k) == CASE k = 1 -> <<1, 2, 3>> [] k = 2 -> <<2, 3, 1>> [] OTHER -> <<3, 1, 2>>
Turn(t, k) == [j \in 1..3 |-> t[Ways(k)[j]]]
Triples == IF Deep THEN { <<x, y, z>> : x \in Rel, y \in Rel, z \in Third } ELSE { <<x, y, << <<0, 1>>, <<1, 2>> >> >> : x \in Rel, y \in Rel }
BoxOf(t, s) == [lo |-> [j \in 1..3 |-> t[j][s][1]], hi |-> [j \in 1..3 |-> t[j][s][2]]]
Pairs == { LET u == Turn(t, k) IN [e |-> "pair", a |-> BoxOf(u, 1), b |-> BoxOf(u, 2)] : t \in Triples, k \in 1..3 }
\* a box and a point: below, at the bottom, inside, at the top, above
PR == ({ <<1, 3>> } \X (0..4)) \cup ({ <<2, 2>> } \X {1, 2, 3})
Points == { [e |-> "point", a |-> [lo |-> [j \in 1..3 |-> t[j][1][1]], hi |-> [j \in 1..3 |-> t[j][1][2]]], p |-> [j \in 1..3 |-> t[j][2]]] : t \in PR \X PR \X PR }
\* clouds
Cube == { <<x, y, z>> : x \in 0..1, y \in 0..1, z \in 0..1 }
Clouds == { [e |-> "cloud", ps |-> SetToSeq(s)] : s \in SUBSET Cube }
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Pairs) \o SetToSeq(Points) \o SetToSeq(Clouds))
=============================================================================
