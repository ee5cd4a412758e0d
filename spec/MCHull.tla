-------------------------------- MODULE MCHull --------------------------------
(* A convex hull that grows point by point, for places of which no four lie   *)
(* in a plane: the faces that a new point is outside of are removed, and the  *)
(* border of the hole is connected to it.  Model checked for every order of   *)
(* the points: the surface is the hull of the points so far, all the time.    *)
EXTENDS Hull, TLC
CONSTANTS Places, Deepest
SomePlaces == << <<0, 0, 0>>, <<4, 0, 1>>, <<0, 5, 2>>, <<1, 1, 6>>, <<2, 2, 2>>, <<5, 4, 7>>, <<1, 2, 3>> >>
VARIABLES ps, faces
vars == <<ps, faces>>
All == Deepest
P == Places
ASSUME \A S \in kSubset(4, 1..Len(P)) : LET q == SetToSeq(S) IN Volume(P[q[1]], P[q[2]], P[q[3]], P[q[4]]) # 0
Init == ps = <<>> /\ faces = {}
\* a face is a cycle of three corners, its outside is where the side is negative
Turned(t) == <<t[1], t[3], t[2]>>
Canon(t) == LET k == CHOOSE k \in 1..3 : \A j \in 1..3 : t[k] <= t[j] IN << t[k], t[(k % 3) + 1], t[((k + 1) % 3) + 1] >>
Visible(t, q, p) == Volume(q[t[1]], q[t[2]], q[t[3]], p) > 0
Directed(t) == { <<t[1], t[2]>>, <<t[2], t[3]>>, <<t[3], t[1]>> }
Insert == \E k \in 1..Len(P) : LET p == P[k] q == Append(ps, p) n == Len(q) IN
  /\ p \notin ToSet(ps) /\ Len(ps) < All /\ ps' = q
  /\ faces' = CASE n < 3 -> {}
                [] n = 3 -> { <<1, 2, 3>>, <<1, 3, 2>> }
                [] OTHER -> LET gone == { t \in faces : Visible(t, q, p) }
                                edges == UNION { Directed(t) : t \in gone }
                                border == { e \in edges : <<e[2], e[1]>> \notin edges }
                            IN (faces \ gone) \cup { Canon(<<e[1], e[2], n>>) : e \in border }
Next == Insert
Spec == Init /\ [][Next]_vars
IsHull == Len(ps) >= 3 => LET ts == SetToSeq(faces) IN Hull(ts, ps) /\ Encloses(Corners(ts), ps)
\* every edge has exactly one face on each of its sides
Oriented == \A t \in faces : \A e \in Directed(t) : Cardinality({ u \in faces : <<e[2], e[1]>> \in Directed(u) }) = 1
\* the faces are all the triangles that have all points on one side, whatever the order of the points
Unique == Len(ps) >= 4 => { ToSet(t) : t \in faces } = { S \in kSubset(3, DOMAIN ps) : Supporting(SetToSortSeq(S, <), ps) }
Euler == Len(ps) >= 4 => Cardinality(faces) = 2 * Cardinality(Corners(SetToSeq(faces))) - 4
\* what the rules for large clouds rely on
StrictFaces == Len(ps) >= 4 => \A t \in faces : Strict(t, ps)
=============================================================================
