------------------------------ MODULE BufferOps ------------------------------
(* The calls a client can make on a buffer of n points with k attributes, as  *)
(* records in the vocabulary of the traces.  Shared by the model checking of  *)
(* Buffer (MCBuffer) and the generation of behaviours for the code            *)
(* (GenBuffer).                                                               *)
EXTENDS PointSeq

\* points whose values are all different from those of other numbers s, as far as the values last
Fresh(s, n, k) == [i \in 1..n |-> [a \in 1..k |-> (s + (i - 1) * k + a - 1) % Values]]
FreshVals(s, n) == [i \in 1..n |-> (s + i - 1) % Values]

Ranges(n) == { <<a, b>> \in (0..n) \X (0..n) : a <= b }
\* ranges that do not fit into n
BadRanges(n) == { <<0, n + 1>>, <<n, n + 1>>, <<n + 1, n + 1>>, <<n + 1, n + 2>> }

RECURSIVE Windows(_, _)
\* all windows on n points that are at most d deep and fit
Windows(n, d) == {<<>>} \cup (IF d = 0 THEN {} ELSE
  UNION { { <<r>> \o w : w \in Windows(r[2] - r[1], d - 1) } : r \in Ranges(n) })
\* windows of which some level does not fit into its parent
RECURSIVE BadWindows(_, _)
BadWindows(n, d) == IF d = 0 THEN {} ELSE
  { <<r>> : r \in BadRanges(n) } \cup UNION { { <<r>> \o w : w \in BadWindows(r[2] - r[1], d - 1) } : r \in Ranges(n) }

Grow(n, k, s, max) ==
  { [e |-> "push", ps |-> Fresh(s, m, k)] : m \in 0..2 } \cup
  { [e |-> "append", ps |-> Fresh(s, m, k), same |-> TRUE] : m \in 0..2 } \cup
  { [e |-> "resize", n |-> m] : m \in 0..max } \cup
  { [e |-> "collect", ps |-> Fresh(s, m, k)] : m \in {0, 1, 3} } \cup
  { [e |-> "clear"], [e |-> "clone"] }

\* writes through window w; over: how far indices and ranges may lie outside of it
Writes(w, n, k, s, over) ==
  LET len == WinLen(w, n)
      rs == Ranges(len) \cup (IF over > 0 THEN BadRanges(len) ELSE {})
      is == 0..(len - 1 + over)
  IN { [e |-> "setp", w |-> w, i |-> i, p |-> Fresh(s, 1, k)[1]] : i \in is } \cup
     { [e |-> "setps", w |-> w, a |-> r[1], b |-> r[2], ps |-> Fresh(s, r[2] - r[1], k)] : r \in rs } \cup
     UNION { { [e |-> "seta", w |-> w, at |-> a, i |-> i, v |-> s % Values] : i \in is } : a \in 1..k } \cup
     UNION { { [e |-> "setas", w |-> w, at |-> a, a |-> r[1], b |-> r[2], vs |-> FreshVals(s, r[2] - r[1])] : r \in rs } : a \in 1..k } \cup
     { [e |-> "swap", w |-> w, i |-> p[1], j |-> p[2]] : p \in is \X is } \cup
     { [e |-> "xform", w |-> w, at |-> a, mul |-> 2, add |-> 1] : a \in 1..k }
Sorts(w, k) == { [e |-> "sort", w |-> w, at |-> a, m |-> m, desc |-> d] : a \in 1..k, m \in {2, 251}, d \in {TRUE, FALSE} }
Reads(w, n, k, over) ==
  LET len == WinLen(w, n)
      rs == Ranges(len) \cup (IF over > 0 THEN BadRanges(len) ELSE {})
  IN { [e |-> "len", w |-> w] } \cup { [e |-> "rows", w |-> w, a |-> r[1], b |-> r[2]] : r \in rs } \cup
     UNION { { [e |-> "col", w |-> w, at |-> a, a |-> r[1], b |-> r[2]] : r \in rs } : a \in 1..k }

Calls == {"next", "nth", "skip", "step", "rest", "hint"}
\* scripts of at most two calls and a look at what is left
Call(c, n) == [c |-> c, n |-> n]
Scripts(n) ==
  LET one == { Call("next", 0), Call("hint", 0) } \cup { Call(c, m) : c \in {"nth", "skip", "step"}, m \in 0..(n + 1) }
      end == { Call("rest", 0), Call("last", 0), Call("count", 0) }
  IN { <<x, y>> : x \in one, y \in end } \cup { <<x, y, Call("hint", 0), Call("rest", 0), Call("next", 0)>> : x \in one, y \in one }
Iters(w, n) == { [e |-> "iter", w |-> w, script |-> sc] : sc \in Scripts(WinLen(w, n)) }

Preds(n) == [1..n -> BOOLEAN]
Filters(n, k, s) ==
  { [e |-> "filter", pred |-> [i \in 1..n |-> p[i]]] : p \in Preds(n) } \cup
  { [e |-> "filter_into", pred |-> [i \in 1..n |-> p[i]], pre |-> Fresh(s, m, k), same |-> TRUE] : p \in Preds(n), m \in 0..(n + 1) }
=============================================================================
