-------------------------------- MODULE MCBoxes --------------------------------
(* Model checking of Boxes: two boxes that grow by points and by each other,  *)
(* together with the points that went into them.                              *)
EXTENDS Boxes, TLC
SE == INSTANCE SequencesExt
CONSTANTS GX, GY, GZ, MaxPts
VARIABLES a, b, A, B
vars == <<a, b, A, B>>
Grid == { <<x, y, z>> : x \in 0..GX, y \in 0..GY, z \in 0..GZ }
AllBoxes == { bx \in [lo : Grid, hi : Grid] : Valid(bx) }
\* a grid with the places between the points, and outside
Fine == { <<x, y, z>> : x \in -1..(GX + 1), y \in -1..(GY + 1), z \in -1..(GZ + 1) }

Init == \E p \in Grid, q \in Grid : a = Single(p) /\ A = {p} /\ b = Single(q) /\ B = {q}
Next == \/ Cardinality(A) < MaxPts /\ \E p \in Grid : a' = Extended(a, p) /\ A' = A \cup {p} /\ UNCHANGED <<b, B>>
        \/ Cardinality(B) < MaxPts /\ \E p \in Grid : b' = Extended(b, p) /\ B' = B \cup {p} /\ UNCHANGED <<a, A>>
        \/ a' = Union(a, b) /\ A' = A \cup B /\ UNCHANGED <<b, B>>
Spec == Init /\ [][Next]_vars

IsBoxOf(bx, S) == bx = OfPoints(SE!SetToSeq(S))
History == Valid(a) /\ Valid(b) /\ IsBoxOf(a, A) /\ IsBoxOf(b, B)
\* the box of points is the smallest that contains them
Smallest == /\ \A p \in A : Contains(a, p)
            /\ \A p \in Fine \ Grid : ~Contains(a, p)
            /\ \A k \in Axes : (\E p \in A : p[k] = a.lo[k]) /\ (\E p \in A : p[k] = a.hi[k])
Join == LET u == Union(a, b) IN
  /\ Valid(u) /\ u = Union(b, a) /\ Union(a, a) = a /\ Inside(a, u) /\ Inside(b, u) /\ Union(u, a) = u
  /\ (Inside(a, b) <=> u = b)
  /\ \A p \in Fine : Contains(a, p) \/ Contains(b, p) => Contains(u, p)
Meet == /\ Intersects(a, b) = Intersects(b, a)
        /\ Intersects(a, b) = (\E p \in Grid : Contains(a, p) /\ Contains(b, p))
        /\ Intersects(a, a)
Approx == \A p \in Fine : /\ ContainsApprox(a, p, 0) = Contains(a, p)
                          /\ (Contains(a, p) => ContainsApprox(a, p, 1))
                          /\ ContainsApprox(a, p, 1) = Contains([lo |-> [k \in Axes |-> a.lo[k] - 1], hi |-> [k \in Axes |-> a.hi[k] + 1]], p)
\* the cubic box, in doubled coordinates so that it exists on the grid
Doubled(bx) == [lo |-> [k \in Axes |-> 2 * bx.lo[k]], hi |-> [k \in Axes |-> 2 * bx.hi[k]]]
Cube(bx) == LET d == Doubled(bx)
                s == LargestExtent(bx)
            IN [lo |-> [k \in Axes |-> (d.lo[k] + d.hi[k]) \div 2 - s], hi |-> [k \in Axes |-> (d.lo[k] + d.hi[k]) \div 2 + s]]
Cubic == /\ IsCubic(Doubled(a), Cube(a)) /\ Inside(Doubled(a), Cube(a)) /\ Valid(Cube(a))
         /\ \A c \in { Cube(a), Doubled(a) } : IsCubic(Doubled(a), c) => c = Cube(a)
Least == \A c \in AllBoxes : Inside(a, c) /\ Inside(b, c) => Inside(Union(a, b), c)
=============================================================================
