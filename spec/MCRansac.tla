------------------------------- MODULE MCRansac -------------------------------
(* Robust fitting step by step: workers sample hypotheses in any order, keep  *)
(* the best of theirs, and hand it over in any order.  Model checked: what is *)
(* reported is a best one of those that were sampled, whatever the schedule.  *)
EXTENDS Ransac, TLC
CONSTANTS Kind, MaxX, MaxY, MaxZ, N, Workers
VARIABLES ps, thr, tried, kept, reported
vars == <<ps, thr, tried, kept, reported>>
Grid == { <<x, y, z>> : x \in 0..MaxX, y \in 0..MaxY, z \in 0..MaxZ }
Nothing == [m |-> <<>>, inl |-> {}]
Hypothesis(m) == [m |-> m, inl |-> Within(Kind, m, ps, thr[1], thr[2])]
Rank1(h) == Cardinality(h.inl)
\* clouds in any order of their points would be the same: one order, and one repeated point
Clouds == { SetToSeq(s) : s \in kSubset(N, Grid) } \cup { Append(SetToSeq(s), SetToSeq(s)[1]) : s \in kSubset(N - 1, Grid) }

Init == ps \in Clouds /\ thr \in { <<1, 2>>, <<1, 1>>, <<3, 2>> } /\ tried = {} /\ kept = [w \in Workers |-> Nothing] /\ reported = Nothing
Better(h, k) == IF k.m = <<>> \/ (h.m # <<>> /\ Rank1(h) > Rank1(k)) THEN h ELSE k
Sample(w) == \E S \in Models(Kind, ps) : LET m == Ordered(S) IN
  /\ m \notin tried /\ tried' = tried \cup {m}
  /\ kept' = [kept EXCEPT ![w] = Better(Hypothesis(m), @)]
  /\ UNCHANGED <<ps, thr, reported>>
\* hand the best over; ties may go either way
HandOver(w) == /\ kept[w].m # <<>>
               /\ reported' \in { Better(kept[w], reported), Better(reported, kept[w]) }
               /\ kept' = [kept EXCEPT ![w] = Nothing] /\ UNCHANGED <<ps, thr, tried>>
Next == \E w \in Workers : Sample(w) \/ HandOver(w)
Spec == Init /\ [][Next]_vars

AllHandedOver == \A w \in Workers : kept[w] = Nothing
IsHypothesis(h) == h.m = <<>> \/ (h.m \in tried /\ h = Hypothesis(h.m))
Kept == IsHypothesis(reported) /\ \A w \in Workers : IsHypothesis(kept[w])
\* nothing that was sampled fits better
BestSampled == AllHandedOver => \A m \in tried : Rank1(Hypothesis(m)) <= Rank1(reported)
\* everything sampled: the best there is
BestOfAll == (AllHandedOver /\ Cardinality(tried) = Cardinality(Models(Kind, ps))) => Rank1(reported) = Best(Kind, ps, thr[1], thr[2])
Listed == reported.m # <<>> => Inliers(Ordered(reported.inl), Kind, reported.m, ps, thr[1], thr[2])
\* (looked at in the initial states only: a cloud does not change)
Laws == tried = {} => \A S \in Models(Kind, ps) : LET m == Ordered(S) r == Reverse(m) IN
  /\ Within(Kind, m, ps, thr[1], thr[2]) = Within(Kind, r, ps, thr[1], thr[2])
  /\ Within(Kind, m, ps, thr[1], thr[2]) \subseteq AtMost(Kind, m, ps, thr[1], thr[2])
  /\ AtMost(Kind, m, ps, 1, 2) \subseteq Within(Kind, m, ps, 1, 1)
  /\ (~Degenerate(Kind, m, ps) => S \subseteq Within(Kind, m, ps, thr[1], thr[2]))
  /\ LET moved == [i \in DOMAIN ps |-> Add(ps[i], <<3, -2, 5>>)] IN Within(Kind, m, moved, thr[1], thr[2]) = Within(Kind, m, ps, thr[1], thr[2])
=============================================================================
