-------------------------------- MODULE MCVoxel --------------------------------
(* Downsampling step by step: marks are laid along every axis, each point in  *)
(* turn walks along the marks to its cell, and the cells with points are kept *)
(* in a list that is sorted by their numbers.  Model checked: at the end this *)
(* is what Voxel says.                                                        *)
EXTENDS Voxel, TLC
CONSTANTS MaxX, MaxY, MaxPts, Sizes
VARIABLES ps, leaf, seen, list
vars == <<ps, leaf, seen, list>>
Places == { [pos |-> <<x, y, 0>>] : x \in 0..MaxX, y \in 0..MaxY }

RECURSIVE Marks(_, _, _)
Marks(at, hi, s) == IF at < hi THEN <<at + s>> \o Marks(at + s, hi, s) ELSE <<>>
RECURSIVE WalkFrom(_, _, _)
WalkFrom(x, marks, j) == IF marks # <<>> /\ marks[j] < x THEN WalkFrom(x, marks, j + 1) ELSE j
\* the first mark not below, or the one before if that is closer
Walk(x, marks) == LET j == WalkFrom(x, marks, 1) IN IF j > 1 /\ x - marks[j - 1] < marks[j] - x THEN j - 1 ELSE j

MarksOf(a) == Marks(LoOf(ps, a), HiOf(ps, a), leaf[a])
CellAt(p) == [a \in 1..3 |-> Walk(p.pos[a], MarksOf(a))]
Before(c, d) == \E a \in 1..3 : c[a] < d[a] /\ \A b \in 1..(a - 1) : c[b] = d[b]
\* position of cell c in the list, or where it has to be inserted
PlaceOf(c) == Cardinality({ k \in DOMAIN list : Before(list[k].cell, c) }) + 1

Init == /\ \E n \in 1..MaxPts : ps \in [1..n -> Places]
        /\ leaf \in [1..3 -> Sizes] /\ leaf[3] = 1
        /\ seen = 0 /\ list = <<>>
Visit == /\ seen < Len(ps) /\ seen' = seen + 1 /\ UNCHANGED <<ps, leaf>>
         /\ LET c == CellAt(ps[seen']) k == PlaceOf(c) IN
            list' = IF k <= Len(list) /\ list[k].cell = c THEN [list EXCEPT ![k].points = Append(@, seen')]
                    ELSE InsertAt(list, k, [cell |-> c, points |-> <<seen'>>])
Next == Visit
Spec == Init /\ [][Next]_vars

Sorted == \A k \in 1..(Len(list) - 1) : Before(list[k].cell, list[k + 1].cell)
Partition == /\ \A i \in 1..seen : \E k \in DOMAIN list : i \in ToSet(list[k].points)
             /\ \A j, k \in DOMAIN list : j # k => ToSet(list[j].points) \cap ToSet(list[k].points) = {}
             /\ \A k \in DOMAIN list : list[k].points # <<>> /\ \A i \in 1..(Len(list[k].points) - 1) : list[k].points[i] < list[k].points[i + 1]
\* a point is in the cell of a nearest mark
Nearest == \A i \in DOMAIN ps : \A a \in 1..3 :
  LET m == MarksOf(a) c == Walk(ps[i].pos[a], m) IN
  /\ c = CellOf(ps[i].pos[a], LoOf(ps, a), HiOf(ps, a), leaf[a], "up") \/ m = <<>>
  /\ \A j \in DOMAIN m : AbsV(ps[i].pos[a] - m[c]) <= AbsV(ps[i].pos[a] - m[j])
Finished == seen = Len(ps) => { ToSet(list[k].points) : k \in DOMAIN list } = Voxels(ps, leaf, "up")
\* the two ways to break ties only differ for points in the middle of two marks
Ties == Voxels(ps, leaf, "up") # Voxels(ps, leaf, "down") =>
  \E i \in DOMAIN ps : \E a \in 1..3 : \E j \in 1..(Len(MarksOf(a)) - 1) : 2 * ps[i].pos[a] = MarksOf(a)[j] + MarksOf(a)[j + 1]
\* averages exist and lie within the points they are averages of
Averages == \A k \in DOMAIN list : LET S == ToSet(list[k].points) f(i) == ps[i].pos[1] r == SumOf(f, S) \div Cardinality(S) IN
  /\ AverageInt(r, f, S) /\ r >= Min({ f(i) : i \in S }) /\ r <= Max({ f(i) : i \in S })
  /\ Average((1000 * SumOf(f, S)) \div Cardinality(S), f, S, 1000)
  /\ \E v \in { f(i) : i \in S } : MostCommon(v, f, S) /\ \E w \in { f(i) : i \in S } : Maximum(w, f, S)
=============================================================================
