------------------------------ MODULE TraceBuffer ------------------------------
(* Trace validation: the recorded history of a real buffer has to be a        *)
(* behaviour of Buffer.  One record per API call: arguments, whether the call *)
(* was accepted, its result, and (for mutating calls) the complete contents   *)
(* of the buffer afterwards, read back through a randomly chosen read path.   *)
EXTENDS Buffer, Json, TLC, TLCExt, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l
vars == <<na, pts, l>>

Start == atoi(IOEnv.START)
Init == l = Start /\ na = 0 /\ pts = <<>>

ev == Log[l]
Is(e) == l <= Len(Log) /\ ev.e = e /\ l' = l + 1

\* the contents read back after the call are the state
Seen == ev.obs = pts' /\ ev.len = Len(pts')
Same == UNCHANGED bufvars

\* a refused call: the state becomes what was read back, which must be within the allowed damage
Refused(addressed(_, _), New(_, _)) ==
  /\ ~ev.ok
  /\ Damage(ev.obs, addressed, New) = TRUE \* (a value: TLC would branch on the alternatives in it)
  /\ ev.len = N
  /\ na' = na /\ pts' = ev.obs

None(i, at) == FALSE
Old(i, at)  == pts[i][at]

----------------------------------------------------------------------------
TNew == Is("new") /\ Create(ev.na, ev.pts) /\ Seen

TPush    == Is("push")    /\ ev.ok /\ Push(ev.ps) /\ Seen
TAppend  == Is("append")  /\ IF ev.same THEN ev.ok /\ Push(ev.ps) /\ Seen ELSE Refused(None, Old)
TResize  == Is("resize")  /\ ev.ok /\ Resize(ev.n) /\ Seen
TClear   == Is("clear")   /\ ev.ok /\ Clear /\ Seen
\* a clone takes the place of the original
TClone   == Is("clone")   /\ ev.ok /\ UNCHANGED bufvars /\ Seen
TCollect == Is("collect") /\ ev.ok /\ Collect(ev.ps) /\ Seen

\* 1-based position in the buffer of local index i of the event's window
Pos(i) == WinStart(ev.w) + i + 1

TSetPoint == Is("setp") /\
  \/ ev.ok /\ SetPoint(ev.w, ev.i, ev.p) /\ Seen
  \/ ~IndexMust(ev.w, ev.i, N)
     /\ Refused(LAMBDA i, at : Reach(ev.w, ev.i, N) /\ i = Pos(ev.i), LAMBDA i, at : ev.p[at])

TSetPoints == Is("setps") /\
  \/ ev.ok /\ SetPoints(ev.w, ev.a, ev.b, ev.ps) /\ Seen
  \/ ~RangeMust(ev.w, ev.a, ev.b, N)
     /\ Refused(LAMBDA i, at : i - WinStart(ev.w) \in (ev.a + 1)..ev.b /\ Reach(ev.w, i - WinStart(ev.w) - 1, N),
                LAMBDA i, at : ev.ps[i - WinStart(ev.w) - ev.a][at])

TSetAttr == Is("seta") /\
  \/ ev.ok /\ SetAttr(ev.w, ev.at, ev.i, ev.v) /\ Seen
  \/ ~(IndexMust(ev.w, ev.i, N) /\ ev.at \in 1..na)
     /\ Refused(LAMBDA i, at : at = ev.at /\ Reach(ev.w, ev.i, N) /\ i = Pos(ev.i), LAMBDA i, at : ev.v)

TSetAttrs == Is("setas") /\
  \/ ev.ok /\ SetAttrs(ev.w, ev.at, ev.a, ev.b, ev.vs) /\ Seen
  \/ ~(RangeMust(ev.w, ev.a, ev.b, N) /\ ev.at \in 1..na)
     /\ Refused(LAMBDA i, at : at = ev.at /\ i - WinStart(ev.w) \in (ev.a + 1)..ev.b /\ Reach(ev.w, i - WinStart(ev.w) - 1, N),
                LAMBDA i, at : ev.vs[i - WinStart(ev.w) - ev.a])

TSwap == Is("swap") /\
  \/ ev.ok /\ Swap(ev.w, ev.i, ev.j) /\ Seen
  \/ ~(IndexMust(ev.w, ev.i, N) /\ IndexMust(ev.w, ev.j, N)) /\ Refused(None, Old)

TXform == Is("xform") /\
  \/ ev.ok /\ Transform(ev.w, ev.at, ev.mul, ev.add) /\ Seen
  \/ ~WinValid(ev.w, N)
     /\ Refused(LAMBDA i, at : at = ev.at /\ i > WinStart(ev.w) /\ Reach(ev.w, i - WinStart(ev.w) - 1, N),
                LAMBDA i, at : XformValue(pts[i][at], i - WinStart(ev.w) - 1, ev.mul, ev.add))

TSort == Is("sort") /\
  \/ ev.ok /\ Sort(ev.w, ev.at, ev.m, ev.desc) /\ Seen
  \/ ~WinValid(ev.w, N) /\ Refused(None, Old)

----------------------------------------------------------------------------
(* Reads *)
TRows == Is("rows") /\ Same /\
  IF ev.ok THEN /\ RangeMay(ev.w, ev.a, ev.b, N)
                /\ ev.rows = Sub(pts, WinStart(ev.w) + ev.a, WinStart(ev.w) + ev.b)
           ELSE ~RangeMust(ev.w, ev.a, ev.b, N)

TCol == Is("col") /\ Same /\
  IF ev.ok THEN /\ ev.at \in 1..na /\ RangeMay(ev.w, ev.a, ev.b, N)
                /\ ev.vs = Column(Sub(pts, WinStart(ev.w) + ev.a, WinStart(ev.w) + ev.b), ev.at)
           ELSE ~(ev.at \in 1..na /\ RangeMust(ev.w, ev.a, ev.b, N))

\* the length of a window that does not fit is unspecified
TLen == Is("len") /\ Same /\
  (WinValid(ev.w, N) => ev.ok /\ ev.n = WinLen(ev.w, N) /\ ev.empty = (ev.n = 0))

TEq == Is("eq") /\ Same /\ ev.ok /\
  ev.res = (IF ev.at = 0 THEN ev.ps = pts ELSE Column(ev.ps, ev.at) = Column(pts, ev.at))

\* equality of floating point values: both zeros (0, 1) are equal, what is no number (2, 3) equals nothing
SameFloat(x, y) == x \notin {2, 3} /\ (x = y \/ {x, y} = {0, 1})
TEqFloats == Is("eqf") /\ Same /\ ev.ok /\
  ev.res = (Len(ev.xs) = Len(ev.ys) /\ \A i \in DOMAIN ev.xs : SameFloat(ev.xs[i], ev.ys[i]))

TIter == Is("iter") /\ Same /\
  IF WinValid(ev.w, N)
  THEN /\ ev.ok
       /\ LET s == Window(pts, ev.w)
          IN IterScript(IF ev.at = 0 THEN s ELSE [i \in 1..Len(s) |-> <<s[i][ev.at]>>], 0, ev.script, ev.res)
  ELSE TRUE

TFilter == Is("filter") /\ Same /\ ev.ok /\ ev.rows = Kept(pts, ev.pred)

TFilterInto == Is("filter_into") /\ Same /\
  LET k == Kept(pts, ev.pred)
      fits == ev.same /\ Len(k) <= Len(ev.pre)
  IN /\ ev.ok = fits
     /\ ev.rows = IF fits THEN Overwritten(ev.pre, 0, k) ELSE ev.pre

\* an access that has no right answer: it has to be refused and leave everything as it was
TBad == Is("bad") /\ Refused(None, Old)

Next == TNew \/ TPush \/ TAppend \/ TResize \/ TClear \/ TClone \/ TCollect
     \/ TSetPoint \/ TSetPoints \/ TSetAttr \/ TSetAttrs \/ TSwap \/ TXform \/ TSort
     \/ TRows \/ TCol \/ TLen \/ TEq \/ TEqFloats \/ TIter \/ TFilter \/ TFilterInto \/ TBad

Spec == Init /\ [][Next]_vars

TypeOK == na \in Nat /\ WellFormed(pts, na)

Accepted == TLCGet("stats").diameter - 1 = Len(Log) - Start + 1
=============================================================================
