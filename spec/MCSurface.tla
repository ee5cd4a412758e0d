------------------------------- MODULE MCSurface -------------------------------
(* Neighbourhoods, scatter and what describes a surface, for clouds that grow *)
(* point by point: the definitions do not depend on the order or the place of *)
(* the points, there always is an answer, and it is (up to its sign and       *)
(* length) the only one.                                                      *)
EXTENDS Surface, TLC
CONSTANTS MaxX, MaxY, MaxZ, MaxPts
VARIABLE ps
vars == <<ps>>
Places == { <<x, y, z>> : x \in 0..MaxX, y \in 0..MaxY, z \in 0..MaxZ }
Init == ps = <<>>
Next == Len(ps) < MaxPts /\ \E p \in Places : ps' = Append(ps, p)
Spec == Init /\ [][Next]_vars

Some == ps # <<>>
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
Moved == [i \in DOMAIN ps |-> Add(ps[i], <<7, -3, 2>>)]
Swapped == [i \in DOMAIN ps |-> <<ps[i][2], ps[i][1], ps[i][3]>>]
At(S) == LET q == SetToSeq(S) IN [j \in DOMAIN q |-> ps[q[j]]]
\* nearest neighbours: the size that was asked for, nobody outside is closer than somebody inside, always some
Near == Some => \A i \in DOMAIN ps, k \in 1..(Len(ps) + 1) : LET N == Neighbourhoods(ps, i, k) IN
  /\ N # {}
  /\ \A S \in N : /\ Cardinality(S) = (IF k >= Len(ps) THEN Len(ps) ELSE k)
                  /\ \A a \in S, b \in (DOMAIN ps) \ S : Sq(Sub(ps[a], ps[i])) <= Sq(Sub(ps[b], ps[i]))
  /\ N = { S \in kSubset(IF k >= Len(ps) THEN Len(ps) ELSE k, DOMAIN ps) : \A a \in S, b \in (DOMAIN ps) \ S : Sq(Sub(ps[a], ps[i])) <= Sq(Sub(ps[b], ps[i])) }
  /\ \E S \in N : \E j \in S : ps[j] = ps[i]
  /\ N = Neighbourhoods(Moved, i, k)
  /\ { { Len(ps) + 1 - j : j \in S } : S \in N } = Neighbourhoods(Rev(ps), Len(ps) + 1 - i, k)
\* the scatter matrix: symmetric, the same wherever the points are and in whatever order, and nowhere negative
Laws == Some => LET m == Scatter(ps) IN
  /\ \A a, b \in 1..3 : m[a][b] = m[b][a]
  /\ m = Scatter(Moved) /\ m = Scatter(Rev(ps))
  /\ Scatter(Swapped)[1][1] = m[2][2] /\ Scatter(Swapped)[1][3] = m[2][3]
  /\ Trace3(m) >= 0 /\ Det3(m) >= 0
  /\ \A v \in { <<1, 0, 0>>, <<1, 1, 0>>, <<1, -1, 1>>, <<2, -1, 3>> } : Dot(v, <<Dot(m[1], v), Dot(m[2], v), Dot(m[3], v)>>) >= 0
  \* the dimension of the cloud is that of its scatter
  /\ (Det3(m) > 0 <=> Rank(ps) = 3)
  /\ (Trace3(m) = 0 <=> Rank(ps) = 0)
  /\ Rank(ps) = Rank(Moved) /\ Rank(ps) = Rank(Rev(ps))
Million(v) == <<v[1] * 100000, v[2] * 100000, v[3] * 100000>>
Normal == LET p == ps[1] IN CHOOSE n \in { Cross(Sub(ps[i], p), Sub(ps[j], p)) : i, j \in DOMAIN ps } : n # Zero
\* a flat cloud: the normal of its plane describes it, either way round; what is not perpendicular does not
Flat == Some /\ Rank(ps) = 2 => LET n == Normal IN
  /\ Describes(Million(n), Zero, 0, ps) /\ Describes(Sub(Zero, Million(n)), Zero, 0, ps)
  /\ ~Describes(Zero, Zero, 0, ps) /\ ~Describes(Million(n), Zero, 1, ps)
  /\ \E i \in DOMAIN ps : ps[i] # ps[1] /\ ~Describes(Add(Million(n), Million(Sub(ps[i], ps[1]))), Zero, 0, ps)
\* a cloud in space whose scatter is diagonal: its least axis describes it, another one does not
Diagonal == Some /\ Rank(ps) = 3 => LET m == Scatter(ps) IN
  (\A a, b \in 1..3 : a # b => m[a][b] = 0) =>
    \A a \in 1..3 : LET v == [b \in 1..3 |-> IF a = b THEN 400 ELSE 0] kz == (m[a][a] * 1000000) \div Trace3(m) IN
      /\ (\A b \in 1..3 : m[a][a] <= m[b][b]) => LeastVariance(v, kz, m)
      /\ (\E b \in 1..3 : m[a][a] > m[b][b] + 4) => ~LeastVariance(v, kz, m)
=============================================================================
