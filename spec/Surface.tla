-------------------------------- MODULE Surface --------------------------------
(* Centroids, neighbourhoods, scatter matrices and what a surface normal and  *)
(* a curvature are.                                                           *)
EXTENDS Geometry
SumV(ps) == FoldFunction(LAMBDA p, s : Add(p, s), Zero, ps)

\* the possible sets of k nearest neighbours of point i (ties may be broken in any way)
Neighbourhoods(ps, i, k) ==
  IF k >= Len(ps) THEN { DOMAIN ps }
  ELSE LET dist(j) == Sq(Sub(ps[j], ps[i]))
           ds == SortSeq([j \in DOMAIN ps |-> dist(j)], <)
           r == ds[k]
           near == { j \in DOMAIN ps : dist(j) < r }
           tie == { j \in DOMAIN ps : dist(j) = r }
       IN { near \cup t : t \in kSubset(k - Cardinality(near), tie) }

\* n times the scatter matrix of the n points: integers
Scatter(q) == LET n == Len(q) s == SumV(q)
                  e(a, b) == n * FoldFunction(LAMBDA p, x : x + p[a] * p[b], 0, q) - s[a] * s[b]
              IN [a \in 1..3 |-> [b \in 1..3 |-> e(a, b)]]
Trace3(m) == m[1][1] + m[2][2] + m[3][3]
Det3(m) == m[1][1] * (m[2][2] * m[3][3] - m[2][3] * m[3][2]) - m[1][2] * (m[2][1] * m[3][3] - m[2][3] * m[3][1]) + m[1][3] * (m[2][1] * m[3][2] - m[2][2] * m[3][1])
Shift(m, x) == [a \in 1..3 |-> [b \in 1..3 |-> IF a = b THEN m[a][b] - x ELSE m[a][b]]]
PositiveDefinite(m) == m[1][1] > 0 /\ m[1][1] * m[2][2] - m[1][2] * m[2][1] > 0 /\ Det3(m) > 0

\* v6 (a vector scaled to 10^6) is perpendicular to the plane of the points q
Perpendicular(v6, q) == v6 # Zero /\ \A i \in DOMAIN q : AbsV(Dot(v6, Sub(q[i], q[1]))) <= 60
\* curvature kz (in millionths) is the share of the smallest eigenvalue of the scatter matrix m in its trace, and
\* the direction v (scaled to 400) belongs to it
RowAbs(m, a) == AbsV(m[a][1]) + AbsV(m[a][2]) + AbsV(m[a][3])
\* the smallest eigenvalue (about lam) is alone: no other one below lam + 2 (exactly one sign change of the shifted matrix)
Alone(m, lam) == LET s == Shift(m, lam + 2) neg == [a \in 1..3 |-> [b \in 1..3 |-> -s[a][b]]]
                 IN Det3(s) < 0 /\ ~PositiveDefinite(neg)
LeastVariance(v, kz, m) ==
  LET lam == (kz * Trace3(m)) \div 1000 IN  \* the eigenvalue in thousandths
  /\ PositiveDefinite(Shift(m, (lam \div 1000) - 1))
  /\ ~PositiveDefinite(Shift(m, (lam \div 1000) + 2))
  /\ Alone(m, lam \div 1000) =>
       /\ v # Zero
       /\ \A a \in 1..3 : AbsV(1000 * Dot(m[a], v) - lam * v[a]) <= 1000 * (RowAbs(m, a) + (lam \div 1000) + 3)

Describes(v6, v, kz, q) ==
  LET r == Rank(q) m == Scatter(q) IN
  CASE r = 2 -> Perpendicular(v6, q) /\ kz = 0
    [] r = 3 -> kz >= 0 /\ LeastVariance(v, kz, m)
    [] OTHER -> TRUE   \* no surface
=============================================================================
