--------------------------------- MODULE Hull ---------------------------------
(* What a triangle mesh (triples of indices into ps) must be to be the convex *)
(* hull of the cloud ps.                                                      *)
EXTENDS Geometry
Proper(t, ps) == /\ \A k \in 1..3 : t[k] \in DOMAIN ps
                 /\ ~Collinear(ps[t[1]], ps[t[2]], ps[t[3]])
Side(t, ps, p) == Volume(ps[t[1]], ps[t[2]], ps[t[3]], p)
\* no point is outside the face: all of them lie on one side of it
Supporting(t, ps) == \/ \A i \in DOMAIN ps : Side(t, ps, ps[i]) <= 0
                     \/ \A i \in DOMAIN ps : Side(t, ps, ps[i]) >= 0
EdgesOf(t) == << {t[1], t[2]}, {t[2], t[3]}, {t[3], t[1]} >>
UsesOf(e, ts) == FoldFunction(LAMBDA t, n : n + Cardinality({ k \in 1..3 : EdgesOf(t)[k] = e }), 0, ts)
\* the surface has no border
Closed(ts) == \A i \in DOMAIN ts : \A k \in 1..3 : (UsesOf(EdgesOf(ts[i])[k], ts) % 2) = 0
Corners(ts) == UNION { { ts[i][k] : k \in 1..3 } : i \in DOMAIN ts }
Hull(ts, ps) == /\ ts # <<>>
                /\ \A i \in DOMAIN ts : Proper(ts[i], ps) /\ Supporting(ts[i], ps)
                /\ Closed(ts)
\* every point that is not listed is a convex combination of listed ones: all extreme points are listed
Encloses(ix, ps) == LET q == SetToSeq({ ps[i] : i \in ix }) IN \A i \in DOMAIN ps : InHullOf(ps[i], q)
\* no other place of the cloud lies in the plane of the face
Strict(t, ps) == \A i \in DOMAIN ps : Side(t, ps, ps[i]) = 0 => \E k \in 1..3 : ps[i] = ps[t[k]]
\* the corners of a hull with strict faces are its extreme points
ListsCorners(ix, ts, ps) == LET places == { ps[i] : i \in ix } IN \A c \in Corners(ts) : ps[c] \in places
=============================================================================
