------------------------------- MODULE MCBuffer -------------------------------
(* Model checking of Buffer: all histories over a small set of values.        *)
(* Next to the abstract buffer run an interleaved and a columnar store; both  *)
(* have to show the same points after every step, through every window.  The  *)
(* action properties are what the operations promise, stated without the      *)
(* operators that define them.                                                *)
EXTENDS Buffer, Storage, BufferOps

CONSTANTS MaxLen, NA, Depth
MCValues == 3

VARIABLES mem, cols, op
vars == <<na, pts, mem, cols, op>>
NoOp == [e |-> "new"]

Init == na = NA /\ pts = <<>> /\ mem = <<>> /\ cols = [a \in 1..NA |-> <<>>] /\ op = NoOp

Ops == Grow(N, na, 1, MaxLen) \cup Grow(N, na, 2, MaxLen)
       \cup UNION { Writes(w, N, na, 0, 0) \cup Writes(w, N, na, 1, 0) \cup Sorts(w, na) : w \in Windows(N, Depth) }

St == WinStart(op'.w)
\* the cells of a sequence of points, put back over the window (how the sort of a view moves points)
WindowRows(w) == Window(pts, w)

Do ==
  CASE op'.e = "push" -> Push(op'.ps) /\ mem' = IPush(mem, op'.ps) /\ cols' = CPush(cols, op'.ps)
    \* the other strategy's points are taken over through the own representation of them
    [] op'.e = "append" -> /\ Push(op'.ps)
                           /\ mem' = mem \o Woven(CPush([a \in 1..na |-> <<>>], op'.ps))
                           /\ cols' = LET s == Split(Flat(op'.ps), na) IN [a \in 1..na |-> cols[a] \o s[a]]
    [] op'.e = "resize" -> Resize(op'.n) /\ mem' = IResize(mem, na, op'.n) /\ cols' = CResize(cols, op'.n)
    [] op'.e = "clear" -> Clear /\ mem' = <<>> /\ cols' = [a \in 1..na |-> <<>>]
    [] op'.e = "collect" -> Collect(op'.ps) /\ mem' = Flat(op'.ps) /\ cols' = CPush([a \in 1..na |-> <<>>], op'.ps)
    [] op'.e = "clone" -> UNCHANGED <<na, pts, mem, cols>>
    [] op'.e = "setp" -> SetPoint(op'.w, op'.i, op'.p) /\ mem' = ISetPoints(mem, na, St, op'.i, <<op'.p>>) /\ cols' = CSetPoints(cols, St, op'.i, <<op'.p>>)
    [] op'.e = "setps" -> SetPoints(op'.w, op'.a, op'.b, op'.ps) /\ mem' = ISetPoints(mem, na, St, op'.a, op'.ps) /\ cols' = CSetPoints(cols, St, op'.a, op'.ps)
    [] op'.e = "seta" -> SetAttr(op'.w, op'.at, op'.i, op'.v) /\ mem' = ISetAttrs(mem, na, St + op'.i, op'.at, <<op'.v>>) /\ cols' = CSetAttrs(cols, St + op'.i, op'.at, <<op'.v>>)
    [] op'.e = "setas" -> SetAttrs(op'.w, op'.at, op'.a, op'.b, op'.vs) /\ mem' = ISetAttrs(mem, na, St + op'.a, op'.at, op'.vs) /\ cols' = CSetAttrs(cols, St + op'.a, op'.at, op'.vs)
    [] op'.e = "swap" -> Swap(op'.w, op'.i, op'.j) /\ mem' = ISwap(mem, na, St + op'.i, St + op'.j) /\ cols' = CSwap(cols, St + op'.i, St + op'.j)
    [] op'.e = "xform" ->
         LET vs == [i \in 1..WinLen(op'.w, N) |-> XformValue(IAttr(mem, na, op'.at, St + i - 1), i - 1, op'.mul, op'.add)]
         IN Transform(op'.w, op'.at, op'.mul, op'.add) /\ mem' = ISetAttrs(mem, na, St, op'.at, vs) /\ cols' = CSetAttrs(cols, St, op'.at, vs)
    [] op'.e = "sort" ->
         \* an interleaved view sorts the points themselves
         /\ Sort(op'.w, op'.at, op'.m, op'.desc)
         /\ LET rows == [i \in 1..WinLen(op'.w, N) |-> IRow(mem, na, St + i - 1)]
                rows2 == [i \in 1..WinLen(op'.w, N) |-> CRow(cols, St + i - 1)]
                srt(s) == StableSort(s, LAMBDA p : IF op'.desc THEN -(p[op'.at] % op'.m) ELSE p[op'.at] % op'.m)
            IN mem' = ISetPoints(mem, na, St, 0, srt(rows)) /\ cols' = CSetPoints(cols, St, 0, srt(rows2))

Next == op' \in Ops /\ Do
Spec == Init /\ [][Next]_vars
Bounded == N <= MaxLen
\* the last call does not matter for what can happen next
View == <<na, pts, mem, cols>>

TypeOK == na = NA /\ WellFormed(pts, na) /\ \A i \in 1..N : \A a \in 1..na : pts[i][a] \in 0..(Values - 1)
Refines == AbsI(mem, na) = pts /\ AbsC(cols) = pts /\ \A a \in 1..na : Len(cols[a]) = N

(* Reading *)
\* a window of a window is the window in one step, and shows its points
WindowsCompose == \A w \in Windows(N, 2) :
  LET st == WinStart(w) len == WinLen(w, N) IN
  /\ WinValid(w, N) /\ st + len <= N
  /\ Len(Window(pts, w)) = len
  /\ \A i \in 0..(len - 1) : Reach(w, i, N) /\ Window(pts, w)[i + 1] = pts[st + i + 1] /\ IRow(mem, na, st + i) = pts[st + i + 1] /\ CRow(cols, st + i) = pts[st + i + 1]
  /\ ~Reach(w, len, N)
  /\ \A r \in Ranges(len) : RangeMust(w, r[1], r[2], N) /\ Window(pts, Append(w, r)) = Sub(Window(pts, w), r[1], r[2])
\* nothing outside of any of its levels can be reached through a window that does not fit
NoEscape == \A w \in BadWindows(N, 2) : ~WinValid(w, N) /\ \A i \in 0..(N + 2) :
  Reach(w, i, N) => /\ WinStart(w) + i < N
                    /\ \A k \in DOMAIN w : LET st == WinStart(SubSeq(w, 1, k)) IN WinStart(w) + i < st + (w[k][2] - w[k][1])

(* Iterators: nth, skip and step are so many calls of next *)
RECURSIVE Nexts(_, _, _)
\* <<last result, cursor>> of n calls of next, n > 0
Nexts(s, p, n) == LET r == IterCall(s, p, "next", 0) IN IF n = 1 THEN r ELSE Nexts(s, r[2], n - 1)
Iterators == \A p \in 0..N : \A n \in 0..(N + 2) :
  /\ IterCall(pts, p, "nth", n) = Nexts(pts, p, n + 1)
  /\ IterCall(pts, p, "skip", n) = Nexts(pts, p, n + 1)
  /\ IterCall(pts, p, "rest", 0)[1] = FlattenSeq(Sub(pts, p, N))
  /\ IterCall(pts, p, "count", 0)[1][1] = N - p
  /\ n > 0 => LET r == IterCall(pts, p, "step", n)
                  x1 == Nexts(pts, p, 1) x2 == Nexts(pts, x1[2], n) x3 == Nexts(pts, x2[2], n)
              IN r[1] = x1[1] \o x2[1] \o x3[1] /\ r[2] = x3[2]
  /\ HintOK(<<N - p, N - p>>, N - p) /\ HintOK(<<0, -1>>, N - p) /\ ~HintOK(<<N - p + 1, -1>>, N - p)

(* Filtering *)
Filtering == \A p \in Preds(N) :
  LET k == Kept(pts, p) idx == { i \in 1..N : p[i] } IN
  /\ Len(k) = Cardinality(idx)
  \* the i-th match is the one with i - 1 matches before it
  /\ \A i \in idx : k[Cardinality({ j \in idx : j <= i })] = pts[i]

----------------------------------------------------------------------------
(* What the operations promise, over steps *)
InWin(i) == i > St /\ i <= St + WinLen(op'.w, N)
Untouched(S) == \A i \in 1..N : i \notin S => pts'[i] = pts[i]
Occurrences(s, p) == Cardinality({ i \in DOMAIN s : s[i] = p })
Key(p) == IF op'.desc THEN -(p[op'.at] % op'.m) ELSE p[op'.at] % op'.m
Promise ==
  CASE op'.e \in {"push", "append"} -> Len(pts') = N + Len(op'.ps) /\ (\A i \in 1..N : pts'[i] = pts[i]) /\ \A i \in DOMAIN op'.ps : pts'[N + i] = op'.ps[i]
    [] op'.e = "resize" -> Len(pts') = op'.n /\ \A i \in 1..op'.n : pts'[i] = IF i <= N THEN pts[i] ELSE [a \in 1..na |-> 0]
    [] op'.e = "clear" -> pts' = <<>>
    [] op'.e = "collect" -> pts' = op'.ps
    [] op'.e = "clone" -> pts' = pts
    [] op'.e = "setp" -> Len(pts') = N /\ Untouched({St + op'.i + 1}) /\ pts'[St + op'.i + 1] = op'.p
    [] op'.e = "setps" -> Len(pts') = N /\ Untouched({ St + i : i \in (op'.a + 1)..op'.b }) /\ \A i \in 1..(op'.b - op'.a) : pts'[St + op'.a + i] = op'.ps[i]
    [] op'.e = "seta" -> Len(pts') = N /\ \A i \in 1..N : \A a \in 1..na : pts'[i][a] = IF i = St + op'.i + 1 /\ a = op'.at THEN op'.v ELSE pts[i][a]
    [] op'.e = "setas" -> Len(pts') = N /\ \A i \in 1..N : \A a \in 1..na : pts'[i][a] = IF i - St \in (op'.a + 1)..op'.b /\ a = op'.at THEN op'.vs[i - St - op'.a] ELSE pts[i][a]
    [] op'.e = "swap" -> /\ Len(pts') = N /\ Untouched({St + op'.i + 1, St + op'.j + 1})
                         /\ pts'[St + op'.i + 1] = pts[St + op'.j + 1] /\ pts'[St + op'.j + 1] = pts[St + op'.i + 1]
    [] op'.e = "xform" -> Len(pts') = N /\ \A i \in 1..N : \A a \in 1..na : pts'[i][a] = IF InWin(i) /\ a = op'.at THEN XformValue(pts[i][a], i - 1 - St, op'.mul, op'.add) ELSE pts[i][a]
    [] op'.e = "sort" ->
         /\ Len(pts') = N /\ \A i \in 1..N : ~InWin(i) => pts'[i] = pts[i]
         /\ LET was == Window(pts, op'.w) is == Window(pts', op'.w) IN
            /\ \A i \in DOMAIN was : Occurrences(was, was[i]) = Occurrences(is, was[i])
            /\ \A i \in 1..(Len(is) - 1) : Key(is[i]) <= Key(is[i + 1])
            \* the points of every key are in the order they were in
            /\ \A i \in DOMAIN was : LET same(s) == SelectSeq(s, LAMBDA p : Key(p) = Key(was[i])) IN same(is) = same(was)
    [] OTHER -> FALSE
Promises == [][Promise]_vars
=============================================================================
