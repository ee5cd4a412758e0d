-------------------------------- MODULE Pusher --------------------------------
(* Pushing points attribute by attribute: a session collects one column per   *)
(* attribute and is committed as a whole or not at all.                       *)
EXTENDS PointSeq

VARIABLES na, pts,   \* the buffer: number of attributes, points
          open,      \* a session is running
          pend, cnt  \* its columns and the number of points it is going to add (-1: not known yet)
pvars == <<na, pts, open, pend, cnt>>

Buffer(k, ps) == na' = k /\ pts' = ps /\ open' = FALSE /\ pend' = <<>> /\ cnt' = -1

Begin == /\ ~open /\ open' = TRUE
         /\ pend' = [a \in 1..na |-> <<>>] /\ cnt' = -1 /\ UNCHANGED <<na, pts>>

\* at = 0 stands for an attribute that the layout does not have
CanPush(at, vs, typed) == open /\ typed /\ at \in 1..na /\ (cnt = -1 \/ cnt = Len(vs))
PushCol(at, vs) == /\ pend' = [pend EXCEPT ![at] = @ \o vs] /\ cnt' = Len(vs) /\ UNCHANGED <<na, pts, open>>
PushRefused == UNCHANGED pvars

Complete == cnt > 0 /\ \A a \in 1..na : Len(pend[a]) = cnt
Rows == [i \in 1..cnt |-> [a \in 1..na |-> pend[a][i]]]
Nothing == cnt <= 0

End(ps) == open /\ open' = FALSE /\ pend' = <<>> /\ cnt' = -1 /\ na' = na /\ pts' = ps
Commit == Complete /\ End(pts \o Rows)
\* nothing was pushed: nothing to add, whether that counts as a success or not
CommitNothing == Nothing /\ End(pts)
CommitRefused == ~Complete /\ End(pts)
Drop == End(pts)

TypeOK == /\ na \in Nat /\ WellFormed(pts, na)
          /\ (open => Len(pend) = na) /\ (~open => cnt = -1)
=============================================================================
