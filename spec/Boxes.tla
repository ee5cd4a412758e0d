--------------------------------- MODULE Boxes ---------------------------------
(* Axis-aligned boxes [lo, hi] (triples of numbers) as a lattice.             *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt
Axes == 1..3
Lo2(a, b) == IF a <= b THEN a ELSE b
Hi2(a, b) == IF a >= b THEN a ELSE b
Point3(f(_)) == <<f(1), f(2), f(3)>>

Valid(b) == \A k \in Axes : b.lo[k] <= b.hi[k]
Contains(b, p) == \A k \in Axes : b.lo[k] <= p[k] /\ p[k] <= b.hi[k]
ContainsApprox(b, p, e) == \A k \in Axes : b.lo[k] - e <= p[k] /\ p[k] <= b.hi[k] + e
Inside(a, b) == Contains(b, a.lo) /\ Contains(b, a.hi)
Union(a, b) == [lo |-> Point3(LAMBDA k : Lo2(a.lo[k], b.lo[k])), hi |-> Point3(LAMBDA k : Hi2(a.hi[k], b.hi[k]))]
Single(p) == [lo |-> p, hi |-> p]
Extended(b, p) == Union(b, Single(p))
Intersects(a, b) == \A k \in Axes : Hi2(a.lo[k], b.lo[k]) <= Lo2(a.hi[k], b.hi[k])
Extent(b) == Point3(LAMBDA k : b.hi[k] - b.lo[k])
\* the box of a non-empty sequence of points
OfPoints(ps) == [lo |-> Point3(LAMBDA k : Min({ ps[i][k] : i \in DOMAIN ps })), hi |-> Point3(LAMBDA k : Max({ ps[i][k] : i \in DOMAIN ps }))]
\* twice the centre, to stay within the integers
Centre2(b) == Point3(LAMBDA k : b.lo[k] + b.hi[k])
LargestExtent(b) == Max({ b.hi[k] - b.lo[k] : k \in Axes })
IsCubic(b, c) == Centre2(c) = Centre2(b) /\ \A k \in Axes : Extent(c)[k] = LargestExtent(b)
=============================================================================
