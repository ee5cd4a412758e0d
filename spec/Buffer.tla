-------------------------------- MODULE Buffer --------------------------------
(* A point buffer as an abstract data type.  State: the number of attributes  *)
(* of the layout and the sequence of points.  The storage strategy            *)
(* (interleaved, columnar, external memory) is deliberately not part of the   *)
(* state: every strategy has to behave like this machine.                     *)
(* Each operation comes with: when it must be accepted (..Must), when it may  *)
(* be accepted, and its effect.  A refused operation may leave a prefix of    *)
(* its own writes behind but never touches anything it was not addressed to.  *)
EXTENDS PointSeq

VARIABLES na, pts
bufvars == <<na, pts>>

N == Len(pts)

----------------------------------------------------------------------------
(* Growing and shrinking *)
Create(k, ps)  == na' = k /\ pts' = ps
Push(ps)       == na' = na /\ pts' = pts \o ps
Resize(n)      == na' = na /\ pts' = Resized(pts, n, na)
Clear          == na' = na /\ pts' = <<>>
Collect(ps)    == na' = na /\ pts' = ps

(* In-place writes through the window w *)
SetPoint(w, i, p) ==
  Reach(w, i, N) /\ na' = na /\ pts' = Overwritten(pts, WinStart(w) + i, <<p>>)
SetPoints(w, a, b, ps) ==
  RangeMay(w, a, b, N) /\ na' = na /\ pts' = Overwritten(pts, WinStart(w) + a, ps)
SetAttr(w, at, i, v) ==
  at \in 1..na /\ Reach(w, i, N) /\ na' = na /\ pts' = AttrOverwritten(pts, at, WinStart(w) + i, <<v>>)
SetAttrs(w, at, a, b, vs) ==
  at \in 1..na /\ RangeMay(w, a, b, N) /\ na' = na /\ pts' = AttrOverwritten(pts, at, WinStart(w) + a, vs)
Swap(w, i, j) ==
  /\ Reach(w, i, N) /\ Reach(w, j, N)
  /\ na' = na /\ pts' = Swapped(pts, WinStart(w) + i, WinStart(w) + j)
Transform(w, at, mul, add) ==
  /\ at \in 1..na /\ WinMay(w, N)
  /\ na' = na /\ pts' = AttrTransformed(pts, at, WinStart(w), WinLen(w, N), mul, add)
Sort(w, at, m, desc) ==
  /\ at \in 1..na /\ WinMay(w, N)
  /\ na' = na
  /\ pts' = Overwritten(pts, WinStart(w),
              StableSort(Window(pts, w), LAMBDA p : IF desc THEN -(p[at] % m) ELSE p[at] % m))

----------------------------------------------------------------------------
(* What a refused write may leave behind: the same length, and every value    *)
(* that is not addressed unchanged; addressed values are old or new.          *)
\* New is what the operation would have written to point i, attribute at
Damage(obs, addressed(_, _), New(_, _)) ==
  /\ Len(obs) = N /\ WellFormed(obs, na)
  /\ \A i \in 1..N : \A at \in 1..na :
        \/ obs[i][at] = pts[i][at]
        \/ addressed(i, at) /\ obs[i][at] = New(i, at)

----------------------------------------------------------------------------
(* Iterators: a cursor over the window.  Each call gives <<result, cursor>>.  *)
IterCall(s, p, c, n) ==
  LET rest == Len(s) - p
      nth(k) == IF p + k < Len(s) THEN <<s[p + k + 1], p + k + 1>> ELSE <<<<>>, Len(s)>>
  IN CASE c = "next" -> nth(0)
       [] c = "nth"  -> nth(n)
       [] c = "skip" -> nth(n)
       [] c = "step" -> LET st == IF n < 1 THEN 1 ELSE n
                            got == { k \in 0..2 : p + k * st < Len(s) }
                            rows == [k \in 1..Cardinality(got) |-> s[p + (k-1) * st + 1]]
                        IN <<FlattenSeq(rows), IF Cardinality(got) = 3 THEN p + 2 * st + 1 ELSE Len(s)>>
       [] c = "rest" -> <<FlattenSeq(Sub(s, p, Len(s))), Len(s)>>
       [] c = "last" -> <<IF rest = 0 THEN <<>> ELSE s[Len(s)], Len(s)>>
       [] c = "count" -> <<<<rest>>, Len(s)>>

HintOK(h, rest) == h[1] <= rest /\ (h[2] = -1 \/ rest <= h[2])

RECURSIVE IterScript(_, _, _, _)
IterScript(s, p, script, res) ==
  IF script = <<>> THEN res = <<>>
  ELSE /\ res # <<>>
       /\ IF script[1].c = "hint"
          THEN HintOK(res[1], Len(s) - p) /\ IterScript(s, p, Tail(script), Tail(res))
          ELSE LET r == IterCall(s, p, script[1].c, script[1].n)
               IN res[1] = r[1] /\ IterScript(s, r[2], Tail(script), Tail(res))
=============================================================================
