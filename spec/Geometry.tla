------------------------------- MODULE Geometry -------------------------------
(* Exact geometry of points with integer coordinates (triples).               *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt
Sub(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Add(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Sq(a) == Dot(a, a)
Zero == <<0, 0, 0>>
AbsV(n) == IF n < 0 THEN -n ELSE n
Collinear(a, b, c) == Cross(Sub(b, a), Sub(c, a)) = Zero
\* six times the signed volume of the tetrahedron
Volume(a, b, c, d) == Dot(Cross(Sub(b, a), Sub(c, a)), Sub(d, a))

\* number of dimensions that a non-empty sequence of points spans
Rank(ps) ==
  IF \A i \in DOMAIN ps : ps[i] = ps[1] THEN 0
  ELSE LET b == ps[CHOOSE i \in DOMAIN ps : ps[i] # ps[1]] IN
       IF \A i \in DOMAIN ps : Collinear(ps[1], b, ps[i]) THEN 1
       ELSE LET c == ps[CHOOSE i \in DOMAIN ps : ~Collinear(ps[1], b, ps[i])] IN
            IF \A i \in DOMAIN ps : Volume(ps[1], b, c, ps[i]) = 0 THEN 2 ELSE 3

InSegment(p, a, b) == Collinear(a, b, p) /\ Dot(Sub(p, a), Sub(b, a)) >= 0 /\ Dot(Sub(p, b), Sub(a, b)) >= 0
InTriangle(p, a, b, c) ==
  LET n == Cross(Sub(b, a), Sub(c, a)) IN
  /\ n # Zero /\ Dot(n, Sub(p, a)) = 0
  /\ Dot(n, Cross(Sub(b, a), Sub(p, a))) >= 0
  /\ Dot(n, Cross(Sub(c, b), Sub(p, b))) >= 0
  /\ Dot(n, Cross(Sub(a, c), Sub(p, c))) >= 0
SameSign(x, y) == (x >= 0 /\ y >= 0) \/ (x <= 0 /\ y <= 0)
InTetrahedron(p, a, b, c, d) ==
  /\ Volume(a, b, c, d) # 0
  /\ SameSign(Volume(a, b, c, p), Volume(a, b, c, d)) /\ SameSign(Volume(a, b, d, p), Volume(a, b, d, c))
  /\ SameSign(Volume(a, c, d, p), Volume(a, c, d, b)) /\ SameSign(Volume(b, c, d, p), Volume(b, c, d, a))
\* p is a convex combination of points of q (Caratheodory: of at most four of them)
InHullOf(p, q) ==
  LET n == Len(q) IN
  \/ \E i \in 1..n : q[i] = p
  \/ \E i \in 1..n : \E j \in (i + 1)..n : InSegment(p, q[i], q[j])
  \/ \E i \in 1..n : \E j \in (i + 1)..n : \E k \in (j + 1)..n : InTriangle(p, q[i], q[j], q[k])
  \/ \E i \in 1..n : \E j \in (i + 1)..n : \E k \in (j + 1)..n : \E m \in (k + 1)..n : InTetrahedron(p, q[i], q[j], q[k], q[m])
=============================================================================
