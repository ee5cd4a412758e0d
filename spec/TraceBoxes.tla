------------------------------- MODULE TraceBoxes -------------------------------
(* Histories of boxes: slots hold boxes that operations build from earlier    *)
(* ones.                                                                      *)
EXTENDS Boxes, Json, TLC, TLCExt, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
Start == atoi(IOEnv.START)
VARIABLES l, bs
vars == <<l, bs>>
Init == l = Start /\ bs = <<>>
ev == Log[l]
Is(e) == l <= Len(Log) /\ ev.e = e /\ l' = l + 1
\* slot s becomes box b, which is what its accessors show
Becomes(b) == ev.ok /\ ev.box = b /\ bs' = [bs EXCEPT ![ev.s] = b]
Same == UNCHANGED bs

TNew == Is("new") /\ bs' = ev.boxes
TMake == Is("make") /\ LET b == [lo |-> ev.lo, hi |-> ev.hi] IN IF Valid(b) THEN Becomes(b) ELSE ~ev.ok /\ Same
TUnion == Is("union") /\ Becomes(Union(bs[ev.a], bs[ev.b]))
TExtend == Is("extend") /\ Becomes(Extended(bs[ev.a], ev.p))
TPoints == Is("points") /\ IF ev.ps = <<>> THEN ~ev.ok /\ Same ELSE Becomes(OfPoints(ev.ps))
TCubic == Is("cubic") /\ ev.ok /\ IsCubic(bs[ev.a], ev.box) /\ Becomes(ev.box)
TContains == Is("contains") /\ Same /\ ev.r = Contains(bs[ev.a], ev.p)
TApprox == Is("approx") /\ Same /\ ev.r = ContainsApprox(bs[ev.a], ev.p, ev.eps)
TIntersects == Is("intersects") /\ Same /\ ev.r = Intersects(bs[ev.a], bs[ev.b]) /\ ev.rr = ev.r
TExtent == Is("extent") /\ Same /\ ev.r = Extent(bs[ev.a])
TCentre == Is("centre") /\ Same /\ [k \in Axes |-> 2 * ev.r[k]] = [k \in Axes |-> Centre2(bs[ev.a])[k]]
TEq == Is("eq") /\ Same /\ ev.r = (bs[ev.a] = bs[ev.b])
TSerde == Is("serde") /\ Same /\ ev.ok /\ ev.box = bs[ev.a]

Next == TNew \/ TMake \/ TUnion \/ TExtend \/ TPoints \/ TCubic \/ TContains \/ TApprox \/ TIntersects \/ TExtent \/ TCentre \/ TEq \/ TSerde
Spec == Init /\ [][Next]_vars
TypeOK == \A i \in DOMAIN bs : Valid(bs[i])
Accepted == TLCGet("stats").diameter - 1 = Len(Log) - Start + 1
=============================================================================
