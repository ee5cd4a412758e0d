------------------------------- MODULE MCExtrema -------------------------------
(* Extrema and bounds by folding over the points, component by component.     *)
EXTENDS Boxes, SequencesExt, TLC
CONSTANTS Values, MaxPts
VARIABLES vs, some, lo, hi
vars == <<vs, some, lo, hi>>
Vals == [Axes -> Values]
Init == vs = <<>> /\ some = FALSE /\ lo = <<>> /\ hi = <<>>
Visit == \E v \in Vals :
  /\ Len(vs) < MaxPts /\ vs' = Append(vs, v) /\ some' = TRUE
  /\ lo' = IF some THEN [a \in Axes |-> Lo2(v[a], lo[a])] ELSE v
  /\ hi' = IF some THEN [a \in Axes |-> Hi2(v[a], hi[a])] ELSE v
Next == Visit
Spec == Init /\ [][Next]_vars
Exact == IF vs = <<>> THEN ~some ELSE some /\ LET b == OfPoints(vs) IN \A a \in Axes : lo[a] = b.lo[a] /\ hi[a] = b.hi[a]
Attained == \A a \in Axes : some => (\E i \in DOMAIN vs : vs[i][a] = lo[a]) /\ (\E i \in DOMAIN vs : vs[i][a] = hi[a])
Bounding == \A i \in DOMAIN vs : \A a \in Axes : lo[a] <= vs[i][a] /\ vs[i][a] <= hi[a]
\* the order of the points does not matter
Symmetric == vs # <<>> => OfPoints(vs) = OfPoints(Reverse(vs))
\* the components are independent
PerAxis == \A a \in Axes : vs # <<>> => LET col == { vs[i][a] : i \in DOMAIN vs } IN lo[a] = Min(col) /\ hi[a] = Max(col)
Grows == [][some => \A a \in Axes : lo'[a] <= lo[a] /\ hi[a] <= hi'[a]]_vars
=============================================================================
