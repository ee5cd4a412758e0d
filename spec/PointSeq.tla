------------------------------ MODULE PointSeq ------------------------------
(* Pure operators: a point buffer is a sequence of points, a point is a      *)
(* sequence of attribute values (small integers standing for byte patterns,  *)
(* 0 = all bytes zero).  Indices and ranges in arguments are 0-based and     *)
(* half open, as in the API; sequences are 1-based, as in TLA+.              *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

ZeroPoint(na)    == [a \in 1..na |-> 0]
ZeroPoints(n,na) == [i \in 1..n |-> ZeroPoint(na)]

WellFormed(s, na) == \A i \in 1..Len(s) : Len(s[i]) = na

Resized(s, n, na) == IF n <= Len(s) THEN SubSeq(s, 1, n)
                                    ELSE s \o ZeroPoints(n - Len(s), na)

Sub(s, a, b)   == IF a >= b THEN <<>> ELSE SubSeq(s, a + 1, b)
Column(s, at)  == [i \in 1..Len(s) |-> s[i][at]]

\* rows replace the points from position a (0-based) on
Overwritten(s, a, rows) ==
  [i \in 1..Len(s) |-> IF a < i /\ i <= a + Len(rows) THEN rows[i - a] ELSE s[i]]

\* values replace attribute at of the points from position a on
AttrOverwritten(s, at, a, vs) ==
  [i \in 1..Len(s) |-> IF a < i /\ i <= a + Len(vs) THEN [s[i] EXCEPT ![at] = vs[i - a]] ELSE s[i]]

Swapped(s, i, j) == [s EXCEPT ![i+1] = s[j+1], ![j+1] = s[i+1]]

\* value v of the point at local index i becomes (v*mul + 3*i + add) mod Values
Values == 251
XformValue(v, i, mul, add) == (v * mul + 3 * i + add) % Values
AttrTransformed(s, at, lo, n, mul, add) ==
  [i \in 1..Len(s) |-> IF lo < i /\ i <= lo + n
                       THEN [s[i] EXCEPT ![at] = XformValue(s[i][at], i - lo - 1, mul, add)]
                       ELSE s[i]]

\* the stable sort of s by the integer key K: ascending keys, original order within a key
StableSort(s, K(_)) ==
  LET keys == SetToSortSeq({ K(s[i]) : i \in 1..Len(s) }, LAMBDA x, y : x < y)
  IN FlattenSeq([k \in 1..Len(keys) |-> SelectSeq(s, LAMBDA p : K(p) = keys[k])])

\* the points whose flag is set, in order
Kept(s, pred) ==
  LET idx == SetToSortSeq({ i \in 1..Len(s) : pred[i] }, LAMBDA x, y : x < y)
  IN [k \in 1..Len(idx) |-> s[idx[k]]]

----------------------------------------------------------------------------
(* Windows.  A window path <<r1, .., rk>> is a slice of a slice ...; each ri  *)
(* is <<a, b>> relative to its parent.                                       *)
RECURSIVE WinStart(_)
WinStart(w) == IF w = <<>> THEN 0 ELSE w[1][1] + WinStart(Tail(w))

WinLen(w, n) == IF w = <<>> THEN n ELSE w[Len(w)][2] - w[Len(w)][1]

RECURSIVE WinValid(_, _)
WinValid(w, n) == IF w = <<>> THEN TRUE
                  ELSE /\ 0 <= w[1][1] /\ w[1][1] <= w[1][2] /\ w[1][2] <= n
                       /\ WinValid(Tail(w), w[1][2] - w[1][1])

\* the end of the region that is inside every window of the path and inside the buffer
RECURSIVE WinEnd(_, _, _)
WinEnd(w, start, end) ==
  IF w = <<>> THEN end
  ELSE LET e == start + w[1][2] IN WinEnd(Tail(w), start + w[1][1], IF e < end THEN e ELSE end)

\* local index i denotes a point that the window path reaches
Reach(w, i, n) == 0 <= i /\ i < WinLen(w, n) /\ WinStart(w) + i < WinEnd(w, 0, n)

\* a range access that must succeed / that may succeed
RangeMust(w, a, b, n) == WinValid(w, n) /\ 0 <= a /\ a <= b /\ b <= WinLen(w, n)
RangeMay(w, a, b, n)  == a >= b \/ (0 <= a /\ Reach(w, b - 1, n))
\* an operation on all points of a window may succeed
WinMay(w, n)          == RangeMay(w, 0, WinLen(w, n), n)
IndexMust(w, i, n)    == WinValid(w, n) /\ Reach(w, i, n)

Window(s, w) == Sub(s, WinStart(w), WinStart(w) + WinLen(w, Len(s)))
=============================================================================
