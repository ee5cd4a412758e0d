-------------------------------- MODULE MCPnts --------------------------------
(* A writer that keeps the points and writes the file when it is flushed, and  *)
(* a reader of what it has written.  The file is made byte by byte, for every  *)
(* list of attributes, number of points and length of the JSON.                *)
EXTENDS Pnts, Window, TLC
CONSTANTS MaxPoints, JsonLengths, MaxAttrs
VARIABLES lay, pts, need, file, es, json, pos, got
vars == <<lay, pts, need, file, es, json, pos, got>>
Own == { [n |-> Semantics[i][2], d |-> Prim(Semantics[i][3])] : i \in DOMAIN Semantics }
Lays == { l \in UNION { [1..k -> Own] : k \in 1..MaxAttrs } : \A i, j \in DOMAIN l : l[i] = l[j] => i = j }
U32(x) == <<x % 256, (x \div 256) % 256, (x \div 65536) % 256, 0>>
Up(x) == x + ((8 - (x % 8)) % 8)
Rep(b, n) == [i \in 1..n |-> b]
RECURSIVE Body(_, _, _)
Body(l, p, k) == IF k > Len(l) THEN <<>> ELSE
  LET size == PrimSize[l[k].d.t]
      data == [i \in 1..(size * Len(p)) |-> p[((i - 1) \div size) + 1][k][((i - 1) % size) + 1]]
  IN data \o Rep(0, Up(Len(data)) - Len(data)) \o Body(l, p, k + 1)
RECURSIVE Offset(_, _, _)
Offset(l, n, k) == IF k = 1 THEN 0 ELSE Offset(l, n, k - 1) + Up(n * PrimSize[l[k - 1].d.t])
Entries(l, n) == [k \in DOMAIN l |-> [n |-> Semantics[SemOf(l[k].n)][1], k |-> "ref", o |-> Offset(l, n, k), a |-> <<>>]] \o << [n |-> "POINTS_LENGTH", k |-> "num", o |-> n, a |-> <<>>] >>
FileOf(l, p, j) ==
  LET head == Up(28 + j) - 28
      body == Body(l, p, 1)
      end == Up(28 + head + Len(body))
      \* an empty batch table is the two characters of an empty object
      bt == Up(end + 2) - end
  IN <<112, 110, 116, 115>> \o U32(1) \o U32(end + bt) \o U32(head) \o U32(end - 28 - head) \o U32(bt) \o U32(0)
     \o Rep(123, j) \o Rep(32, head - j) \o body \o Rep(0, end - 28 - head - Len(body)) \o <<123, 125>> \o Rep(32, bt - 2)
Value(k, i) == [b \in 1..PrimSize[lay[k].d.t] |-> (16 * i + 4 * k + b) % 256]
NewPoint(i) == [k \in DOMAIN lay |-> Value(k, i)]
Init == lay \in Lays /\ pts = <<>> /\ need = TRUE /\ file = <<>> /\ es = <<>> /\ json = 0 /\ pos = 0 /\ got = <<>>
Write == Len(pts) < MaxPoints /\ \E k \in 1..(MaxPoints - Len(pts)) : pts' = pts \o [i \in 1..k |-> NewPoint(Len(pts) + i)]
         /\ need' = TRUE /\ file' = <<>> /\ UNCHANGED <<lay, es, json, pos, got>>
Flush == need /\ need' = FALSE /\ \E j \in JsonLengths : json' = j /\ file' = FileOf(lay, pts, j)
         /\ es' = Entries(lay, Len(pts)) /\ pos' = 0 /\ got' = <<>> /\ UNCHANGED <<lay, pts>>
Total == PointsLength(es)
Read == ~need /\ \E c \in 1..3 : LET n == Reads(Total, pos, c) IN n > 0 /\ pos' = pos + n
        /\ got' = [i \in 1..n |-> [k \in DOMAIN lay |-> ValueAt(file, Entry(es, Semantics[SemOf(lay[k].n)][1]), pos + i)]]
        /\ UNCHANGED <<lay, pts, need, file, es, json>>
Seek == ~need /\ \E w \in {"start", "end", "current"}, o \in -2..3 : Target(Total, pos, w, o) >= 0 /\ pos' = Clamped(Total, Target(Total, pos, w, o))
        /\ got' = <<>> /\ UNCHANGED <<lay, pts, need, file, es, json>>
Next == Write \/ Flush \/ Read \/ Seek
Spec == Init /\ [][Next]_vars
\* what is written is a file of this kind, and it has the points
Kind == need \/ Wellformed(file, es, json)
Complete == need \/ Stored(file, es, lay, pts, <<>>)
\* what a read returns are the points before the new position
InOrder == got = <<>> \/ got = SubSeq(pts, pos - Len(got) + 1, pos)
Inside == pos >= 0 /\ (need \/ pos <= Total)
\* the rule about the moved positions: zero moves nothing, and moving is not lost
ASSUME Halves == \A s \in 0..1 : LET f32 == Rep(0, 12) IN Moved("Vec3f32", f32, "Vec3f64", Rep(0, 24), <<0, 0, 0>>) /\ ~Moved("Vec3f32", f32, "Vec3f64", Rep(0, 24), <<s + 1, 0, 0>>)
=============================================================================
