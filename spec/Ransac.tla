-------------------------------- MODULE Ransac --------------------------------
(* Robust fitting: hypotheses are spanned by sampled points, the best one is  *)
(* kept.  The distance threshold is num / den.                                *)
EXTENDS Geometry
Models(kind, ps) == kSubset(IF kind = "line" THEN 2 ELSE 3, DOMAIN ps)
\* 1-based indices in ascending order
Ordered(S) == SetToSortSeq(S, <)

\* the squared distance of p to the model compared with the squared threshold: negative, zero or positive;
\* a degenerate model (coincident or collinear samples) has no distance
DegenerateLine(a, b) == a = b
LineCmp(p, a, b, num, den) == den * den * Sq(Cross(Sub(b, a), Sub(p, a))) - num * num * Sq(Sub(b, a))
DegeneratePlane(a, b, c) == Collinear(a, b, c)
PlaneCmp(p, a, b, c, num, den) ==
  LET n == Cross(Sub(b, a), Sub(c, a)) d == Dot(n, Sub(p, a)) IN den * den * d * d - num * num * Sq(n)

Degenerate(kind, m, ps) == IF kind = "line" THEN DegenerateLine(ps[m[1]], ps[m[2]]) ELSE DegeneratePlane(ps[m[1]], ps[m[2]], ps[m[3]])
Cmp(kind, m, ps, i, num, den) ==
  IF kind = "line" THEN LineCmp(ps[i], ps[m[1]], ps[m[2]], num, den)
  ELSE PlaneCmp(ps[i], ps[m[1]], ps[m[2]], ps[m[3]], num, den)
\* points strictly within the threshold, and those at most on it
Within(kind, m, ps, num, den) == IF Degenerate(kind, m, ps) THEN {} ELSE { i \in DOMAIN ps : Cmp(kind, m, ps, i, num, den) < 0 }
AtMost(kind, m, ps, num, den) == IF Degenerate(kind, m, ps) THEN {} ELSE { i \in DOMAIN ps : Cmp(kind, m, ps, i, num, den) <= 0 }
Best(kind, ps, num, den) == Max({ Cardinality(Within(kind, Ordered(S), ps, num, den)) : S \in Models(kind, ps) })

Ascending(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
\* inl is the list of the inliers of the model m
Inliers(inl, kind, m, ps, num, den) ==
  /\ Ascending(inl)
  /\ Within(kind, m, ps, num, den) \subseteq ToSet(inl) /\ ToSet(inl) \subseteq AtMost(kind, m, ps, num, den)
=============================================================================
