---------------------------------- MODULE MCLas ----------------------------------
(* A writer that makes records from points and a reader of the records, with  *)
(* a header that is rewritten when the file is flushed: the bytes of the file *)
(* at every moment.  Positions have one coordinate that varies.               *)
EXTENDS LasFile, Window, TLC
\* constants of configurations cannot be negative
Spots == {0, -13}
MoreSpots == {0, 5, -13}
CONSTANTS Fmts, Minors, MaxPoints, Steps, Positions
VARIABLES c, qs, file, clean, pos, got
vars == <<c, qs, file, clean, pos, got>>
Rep(b, k) == [i \in 1..k |-> b]
Le(x, k) == [i \in 1..k |-> (x \div 256 ^ (i - 1)) % 256]
I32(x) == LET y == IF x < 0 THEN x + 16777216 ELSE x IN << y % 256, (y \div 256) % 256, (y \div 65536) % 256, IF x < 0 THEN 255 ELSE 0 >>
\* the bytes of a whole number of eighths as a float: by the casts of integers, and eight times smaller
F64OfEighths(x) ==
  LET b == Cast("I32", "F64", BitsOf(I32(x)))
      e == Exp("F64", b)
      small == IF x = 0 THEN b ELSE Pack("F64", Sign(b), e - 3, Mant("F64", b))
      byte(k) == ToNat(SubSeq(small, 8 * (k - 1) + 1, 8 * k))
  IN [k \in 1..8 |-> byte(k)]
Zero8 == Rep(0, 8)
Fix == [source |-> <<0, 0>>, guid |-> Rep(0, 16), system |-> Rep(0, 32), software |-> Rep(0, 32), date |-> Rep(0, 4)]
Fits(f, m) == m >= (IF Ext(f) THEN 4 ELSE IF Wave(f) THEN 3 ELSE 2)
Cfgs == { [fmt |-> f, laz |-> FALSE, minor |-> m, grid |-> FALSE, s |-> <<s, 8, 8>>, o |-> <<o, 0, 0>>, sb |-> <<F64OfEighths(s), F64OfEighths(8), F64OfEighths(8)>>, ob |-> <<F64OfEighths(o), Zero8, Zero8>>,
           fix |-> Fix, vlrs |-> v, pad |-> p, evlrs |-> IF m = 4 THEN v ELSE <<>>, extra |-> x] :
          f \in Fmts, m \in Minors, s \in Steps, o \in {0, -3}, v \in {<<>>, << [u |-> Rep(65, 16), r |-> 7, d |-> <<1, 2, 3>>] >>}, p \in {<<>>, <<9, 9>>}, x \in {<<>>, <<Def("E", "U8")>>} }
\* points: return number and position vary
Point(cc, r, p) ==
  LET lay == UserDefs(cc.fmt, cc.extra)
      value(k) == CASE lay[k].n = "Position3D" -> F64OfEighths(p) \o Zero8 \o Zero8
                    [] lay[k].n = "ReturnNumber" -> <<r>>
                    [] lay[k].n = "NumberOfReturns" -> <<7 - r>>
                    [] lay[k].n = "EdgeOfFlightLine" -> <<r % 2>>
                    [] lay[k].n = "ScanDirectionFlag" -> <<1 - (r % 2)>>
                    [] lay[k].n = "ClassificationFlags" -> <<r + 8>>
                    [] lay[k].n = "ScannerChannel" -> <<r % 4>>
                    [] OTHER -> [i \in 1..SizeOf(lay[k].d) |-> (16 * k + i + r) % 128]
  IN [lay |-> lay, p |-> [k \in DOMAIN lay |-> value(k)], loc |-> <<>>]
ValueOf(q, n) == q.p[IndexIn(q.lay, n)]
\* the nearest integer, the greater one in the middle
Round(p, s, o) == (2 * (p - o) + s) \div (2 * s)
RECURSIVE Packed(_, _, _)
Packed(bs, q, k) == IF k > Len(bs) THEN 0 ELSE ValueOf(q, bs[k][1])[1] * 2 ^ bs[k][2] + Packed(bs, q, k + 1)
RecordOf(cc, q) ==
  LET ds == RecordDefs(cc.fmt, cc.extra)
      p == PosEighths(q)
      part(k) == CASE k = 1 -> I32(Round(p[1], cc.s[1], cc.o[1])) \o I32(Round(p[2], cc.s[2], cc.o[2])) \o I32(Round(p[3], cc.s[3], cc.o[3]))
                   [] k = 3 -> Le(Packed(Bitfields(cc.fmt), q, 1), SizeOf(ds[3].d))
                   [] OTHER -> ValueOf(q, ds[k].n)
  IN FlattenSeq([k \in DOMAIN ds |-> part(k)])
VlrBytes(v, wide) == <<0, 0>> \o v.u \o Le(v.r, 2) \o Le(Len(v.d), 2) \o (IF wide THEN Rep(0, 6) ELSE <<>>) \o Rep(0, 32) \o v.d
AllVlrs(vs, wide) == FlattenSeq([k \in DOMAIN vs |-> VlrBytes(vs[k], wide)])
Num(ps, r) == Cardinality({ i \in DOMAIN ps : ValueOf(ps[i], "ReturnNumber")[1] = r })
\* the header says how many points there were at the last flush; points: how many are behind it
FileOf(cc, ps, counted) ==
  LET at == HeaderSize(cc.minor) + Len(AllVlrs(cc.vlrs, FALSE)) + Len(cc.pad)
      done == SubSeq(ps, 1, counted)
      n == IF Ext(cc.fmt) THEN 0 ELSE counted
      xs == { PosEighths(ps[i])[1] : i \in DOMAIN done }
      end == at + counted * RecordLength(cc.fmt, cc.extra)
      counts(k, wide) == FlattenSeq([r \in 1..k |-> Le(IF Ext(cc.fmt) /\ ~wide THEN 0 ELSE Num(done, r), 4) \o (IF wide THEN Rep(0, 4) ELSE <<>>)])
      bounds == (IF xs = {} THEN Zero8 \o Zero8 ELSE F64OfEighths(Max(xs)) \o F64OfEighths(Min(xs))) \o Rep(0, 32)
  IN <<76, 65, 83, 70>> \o Rep(0, 4) \o Rep(0, 16) \o <<1, cc.minor>> \o Rep(0, 68) \o Le(HeaderSize(cc.minor), 2) \o Le(at, 4) \o Le(Len(cc.vlrs), 4) \o <<cc.fmt>> \o Le(RecordLength(cc.fmt, cc.extra), 2)
     \o Le(n, 4) \o counts(5, FALSE) \o FlattenSeq(cc.sb) \o FlattenSeq(cc.ob) \o bounds
     \o When(cc.minor >= 3, Rep(0, 8)) \o When(cc.minor >= 4, (IF cc.evlrs = <<>> THEN Zero8 ELSE Le(end, 4) \o Rep(0, 4)) \o Le(Len(cc.evlrs), 4) \o Le(counted, 4) \o Rep(0, 4) \o counts(15, TRUE))
     \o AllVlrs(cc.vlrs, FALSE) \o cc.pad \o FlattenSeq([i \in DOMAIN ps |-> RecordOf(cc, ps[i])]) \o When(counted = Len(ps), AllVlrs(cc.evlrs, TRUE))
Init == c \in { x \in Cfgs : Fits(x.fmt, x.minor) } /\ qs = <<>> /\ file = FileOf(c, <<>>, 0) /\ clean = TRUE /\ pos = 0 /\ got = <<>>
Write == Len(qs) < MaxPoints /\ \E r \in 1..(IF Ext(c.fmt) THEN 7 ELSE 3), p \in Positions : r % 2 = 1 /\ qs' = Append(qs, Point(c, r, p))
         /\ clean' = FALSE /\ got' = <<>> /\ file' = FileOf(c, qs', 0) /\ pos' = 0 /\ UNCHANGED c
Flush == ~clean /\ clean' = TRUE /\ file' = FileOf(c, qs, Len(qs)) /\ got' = <<>> /\ UNCHANGED <<c, qs, pos>>
Read == clean /\ \E k \in 1..2 : LET m == Reads(Len(qs), pos, k) IN m > 0 /\ pos' = pos + m /\ got' = [i \in 1..m |-> Record(c, file, pos + i)] /\ UNCHANGED <<c, qs, file, clean>>
Seek == clean /\ \E w \in {"start", "end", "current"}, o \in -1..2 : Target(Len(qs), pos, w, o) >= 0 /\ pos' = Clamped(Len(qs), Target(Len(qs), pos, w, o)) /\ got' = <<>> /\ UNCHANGED <<c, qs, file, clean>>
Next == Write \/ Flush \/ Read \/ Seek
Spec == Init /\ [][Next]_vars
\* after every flush the file is what it has to be; before it is never taken for one with all points
Kind == clean => FileOK(c, file, qs)
Honest == clean \/ ~FileOK(c, file, qs)
\* what is read is what was written, and positions are within half a step
InOrder == got = <<>> \/ \A i \in DOMAIN got : LET q == qs[pos - Len(got) + i] IN
  /\ PointStored(c, q, got[i])
  /\ \A k \in DOMAIN q.lay : q.lay[k].n = "Position3D" \/ ReadsAs(c, q.lay[k], q.p[k], got[i], <<>>)
Inside == pos \in 0..Len(qs)
ASSUME Sizes == [f \in Formats |-> RecordLength(f, <<>>)] = [f \in Formats |-> << 20, 28, 26, 34, 57, 63, 30, 36, 38, 59, 67 >>[f + 1]]
\* whatever the attributes, there is one best format
ASSUME OneBest == \A ns \in SUBSET {"GpsTime", "ColorRGB", "NIR", "WaveformDataOffset", "ScanAngle"} : Cardinality({ f \in Formats : Best(ns, f) }) = 1
ASSUME Numbers == \A x \in {0, 1, -1, 7, 8, -8, 12, 1000, -4097} : EighthsOf("F64", BitsOf(F64OfEighths(x))) = x /\ I32At(I32(x), 0) = x
ASSUME Halves == Nearest(1, 12, 8, 0) /\ Nearest(2, 12, 8, 0) /\ ~Nearest(1, 13, 8, 0) /\ Nearest(-2, -13, 8, 0) /\ ~Nearest(-1, -13, 8, 0)
=============================================================================
