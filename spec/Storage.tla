-------------------------------- MODULE Storage --------------------------------
(* The two storage strategies as machines of their own: an interleaved buffer *)
(* is one run of cells (point after point), a columnar buffer one run of      *)
(* cells per attribute.  Every operation is given directly on the cells, the  *)
(* way the containers do it; MCBuffer checks that both of them are            *)
(* refinements of Buffer.                                                     *)
EXTENDS Integers, Sequences, SequencesExt

Flat(ps) == FlattenSeq(ps)
AbsI(mem, na) == [i \in 1..(Len(mem) \div na) |-> SubSeq(mem, (i - 1) * na + 1, i * na)]
AbsC(cols) == [i \in 1..Len(cols[1]) |-> [a \in DOMAIN cols |-> cols[a][i]]]

\* n cells of mem from position p (0-based) on are replaced by those of src from position q on
Copied(mem, p, src, q, n) == [k \in 1..Len(mem) |-> IF p < k /\ k <= p + n THEN src[q + k - p] ELSE mem[k]]
Exchanged(mem, p, q, n) ==
  [k \in 1..Len(mem) |-> IF p < k /\ k <= p + n THEN mem[q + k - p] ELSE IF q < k /\ k <= q + n THEN mem[p + k - q] ELSE mem[k]]
Grown(mem, n) == IF n <= Len(mem) THEN SubSeq(mem, 1, n) ELSE mem \o [k \in 1..(n - Len(mem)) |-> 0]

(* Interleaved.  st: first point of the window (0-based) *)
IPush(mem, ps) == mem \o Flat(ps)
IResize(mem, na, n) == Grown(mem, n * na)
ISetPoints(mem, na, st, a, ps) == Copied(mem, (st + a) * na, Flat(ps), 0, Len(ps) * na)
RECURSIVE ISetAttrs(_, _, _, _, _)
\* attribute by attribute, with the stride of a point
ISetAttrs(mem, na, pos, at, vs) ==
  IF vs = <<>> THEN mem ELSE ISetAttrs(Copied(mem, pos * na + at - 1, vs, 0, 1), na, pos + 1, at, Tail(vs))
ISwap(mem, na, i, j) == Exchanged(mem, i * na, j * na, na)
IRow(mem, na, i) == SubSeq(mem, i * na + 1, (i + 1) * na)
IAttr(mem, na, at, i) == mem[i * na + at]

(* Columnar *)
CPush(cols, ps) == [a \in DOMAIN cols |-> cols[a] \o [i \in DOMAIN ps |-> ps[i][a]]]
CResize(cols, n) == [a \in DOMAIN cols |-> Grown(cols[a], n)]
CSetPoints(cols, st, a, ps) == [k \in DOMAIN cols |-> Copied(cols[k], st + a, [i \in DOMAIN ps |-> ps[i][k]], 0, Len(ps))]
CSetAttrs(cols, pos, at, vs) == [cols EXCEPT ![at] = Copied(@, pos, vs, 0, Len(vs))]
CSwap(cols, i, j) == [a \in DOMAIN cols |-> Exchanged(cols[a], i, j, 1)]
CRow(cols, i) == [a \in DOMAIN cols |-> cols[a][i + 1]]

(* From one strategy into the other: what appending the other kind of buffer has to do *)
Woven(cols) == Flat(AbsC(cols))
Split(mem, na) == [a \in 1..na |-> [i \in 1..(Len(mem) \div na) |-> mem[(i - 1) * na + a]]]
=============================================================================
