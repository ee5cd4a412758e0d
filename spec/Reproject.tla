------------------------------- MODULE Reproject -------------------------------
(* Reprojection of clouds.  A point is <<position, other attributes>>; T is    *)
(* the transformation of the coordinate systems, a function on positions that  *)
(* is not interpreted.                                                         *)
EXTENDS Integers, Sequences
Moved(T, p) == <<T[p[1]], p[2]>>
Within(T, ps) == [i \in DOMAIN ps |-> Moved(T, ps[i])]
Between(T, src, dst) == [i \in DOMAIN dst |-> <<T[src[i][1]], dst[i][2]>>]
=============================================================================
