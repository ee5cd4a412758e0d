--------------------------------- MODULE Voxel ---------------------------------
(* Downsampling: space is cut into cells along the marks lo + s, lo + 2 s, ..  *)
(* of every axis (s: leaf size), a point belongs to its nearest mark, and      *)
(* every cell with points is replaced by one representative.                   *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Functions

\* number of the cell of coordinate x on an axis with coordinates lo..hi; a coordinate in the middle between two
\* marks belongs to the upper one or to the lower one
CellOf(x, lo, hi, s, tie) ==
  IF lo = hi THEN 0
  ELSE LET j == IF x = lo THEN 1 ELSE ((x - lo) + s - 1) \div s
           below == x - (lo + (j - 1) * s)
           above == (lo + j * s) - x
       IN IF j > 1 /\ (below < above \/ (tie = "down" /\ below = above)) THEN j - 1 ELSE j

LoOf(ps, a) == Min({ ps[i].pos[a] : i \in DOMAIN ps })
HiOf(ps, a) == Max({ ps[i].pos[a] : i \in DOMAIN ps })
Voxels(ps, leaf, tie) ==
  LET lo == [a \in 1..3 |-> LoOf(ps, a)]
      hi == [a \in 1..3 |-> HiOf(ps, a)]
      cell == [i \in DOMAIN ps |-> [a \in 1..3 |-> CellOf(ps[i].pos[a], lo[a], hi[a], leaf[a], tie)]]
  IN { { i \in DOMAIN ps : cell[i] = c } : c \in Range(cell) }

SumOf(f(_), S) == FoldSet(LAMBDA i, s : s + f(i), 0, S)
AbsV(n) == IF n < 0 THEN -n ELSE n
\* r is the average of the values f over S, in units of 1 / scale
Average(r, f(_), S, scale) == LET n == Cardinality(S) IN AbsV(r * n - scale * SumOf(f, S)) <= n
\* an average stored as an integer: one of the two integers around it
AverageInt(r, f(_), S) == LET n == Cardinality(S) d == r * n - SumOf(f, S) IN d > -n /\ d < n
MostCommon(r, f(_), S) ==
  LET count(v) == Cardinality({ i \in S : f(i) = v }) IN \A i \in S : count(r) >= count(f(i))
Maximum(r, f(_), S) == r = Max({ f(i) : i \in S })

\* how the attribute number k of the points S is reduced to the value r
Reduced(how, r, ps, k, S) ==
  CASE how = "mean" -> AverageInt(r, LAMBDA i : ps[i].at[k], S)
    [] how = "mean3" -> \A a \in 1..3 : AverageInt(r[a], LAMBDA i : ps[i].at[k][a], S)
    [] how = "meanf" -> \A a \in 1..3 : Average(r[a], LAMBDA i : ps[i].at[k][a], S, 1000)
    [] how = "common" -> MostCommon(r, LAMBDA i : ps[i].at[k], S)
    [] how = "max" -> Maximum(r, LAMBDA i : ps[i].at[k], S)
At(o, ps, S) == \A a \in 1..3 : Average(o.pos[a], LAMBDA i : ps[i].pos[a], S, 1000)
Represents(o, ps, S, hows) == At(o, ps, S) /\ \A k \in DOMAIN hows : Reduced(hows[k], o.at[k], ps, k, S)
\* out has exactly one representative of every voxel, in any order
Downsampled(out, ps, leaf, hows) ==
  \E tie \in {"up", "down"} : LET vs == Voxels(ps, leaf, tie) IN
    /\ Len(out) = Cardinality(vs)
    /\ \A S \in vs : \E j \in DOMAIN out : Represents(out[j], ps, S, hows) /\ \A k \in DOMAIN out : k # j => ~At(out[k], ps, S)
=============================================================================
