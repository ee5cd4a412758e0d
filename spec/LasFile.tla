--------------------------------- MODULE LasFile ---------------------------------
(* LAS files, byte by byte: the header, the records before and after the      *)
(* points (VLRs, EVLRs), and the points.  A compressed file has the points in *)
(* frames of the compressor, which here are the points themselves.            *)
(* A file's description c:                                                    *)
(*   [fmt, laz, minor, grid, s, o (numbers of eighths), sb, ob (bytes),       *)
(*    fix (fields of the header as they are), vlrs, pad, evlrs,               *)
(*    extra (attributes in the extra bytes)]                                  *)
EXTENDS Untyped
Ext(f)  == f >= 6
Gps(f)  == f = 1 \/ f >= 3
Rgb(f)  == f \in {2, 3, 5, 7, 8, 10}
Nir(f)  == f \in {8, 10}
Wave(f) == f \in {4, 5, 9, 10}
Formats == 0..10
Def(n, t) == [n |-> n, d |-> Prim(t)]
When(p, s) == IF p THEN s ELSE <<>>
Begin == << Def("Intensity", "U16") >>
Middle(f) == IF Ext(f) THEN << Def("Classification", "U8"), Def("UserData", "U8"), Def("ScanAngle", "I16") >>
                       ELSE << Def("Classification", "U8"), Def("ScanAngleRank", "I8"), Def("UserData", "U8") >>
End(f) == << Def("PointSourceID", "U16") >> \o When(Gps(f), << Def("GpsTime", "F64") >>) \o When(Rgb(f), << Def("ColorRGB", "Vec3u16") >>)
  \o When(Nir(f), << Def("NIR", "U16") >>)
  \o When(Wave(f), << Def("WavePacketDescriptorIndex", "U8"), Def("WaveformDataOffset", "U64"), Def("WaveformPacketSize", "U32"),
                      Def("ReturnPointWaveformLocation", "F32"), Def("WaveformParameters", "Vec3f32") >>)
FlagsDef(f) == IF Ext(f) THEN Def("LASExtendedFlags", "U16") ELSE Def("LASBasicFlags", "U8")
\* the parts of the flags: the first bit and the number of bits
Bitfields(f) == IF Ext(f) THEN << <<"ReturnNumber", 0, 4>>, <<"NumberOfReturns", 4, 4>>, <<"ClassificationFlags", 8, 4>>, <<"ScannerChannel", 12, 2>>, <<"ScanDirectionFlag", 14, 1>>, <<"EdgeOfFlightLine", 15, 1>> >>
                           ELSE << <<"ReturnNumber", 0, 3>>, <<"NumberOfReturns", 3, 3>>, <<"ScanDirectionFlag", 6, 1>>, <<"EdgeOfFlightLine", 7, 1>> >>
\* a point as it is in the file, and as it is for users
RecordDefs(f, extra) == << Def("LASLocalPosition", "Vec3i32") >> \o Begin \o << FlagsDef(f) >> \o Middle(f) \o End(f) \o extra
UserDefs(f, extra) == << Def("Position3D", "Vec3f64") >> \o Begin \o [k \in DOMAIN Bitfields(f) |-> Def(Bitfields(f)[k][1], "U8")] \o Middle(f) \o End(f) \o extra
RECURSIVE Before(_, _)
Before(ds, k) == IF k = 1 THEN 0 ELSE Before(ds, k - 1) + SizeOf(ds[k - 1].d)
Length(ds) == Before(ds, Len(ds) + 1)
RecordLength(f, extra) == Length(RecordDefs(f, extra))
\* where the parts of a record are
Places(f, extra) == LET ds == RecordDefs(f, extra) IN [k \in DOMAIN ds |-> Before(ds, k)]

\* the best format for points of some attributes: it has all of them and no smaller one has
Needs(names, f) ==
  /\ ("GpsTime" \in names => Gps(f)) /\ ("ColorRGB" \in names => Rgb(f)) /\ ("NIR" \in names => Nir(f))
  /\ (names \cap {"WavePacketDescriptorIndex", "WaveformDataOffset", "WaveformPacketSize", "ReturnPointWaveformLocation", "WaveformParameters"} # {} => Wave(f))
  /\ (names \cap {"NIR", "ScanAngle", "ScannerChannel", "ClassificationFlags"} # {} => Ext(f))
Best(names, f) == f \in Formats /\ Needs(names, f) /\ \A g \in Formats : Needs(names, g) => RecordLength(f, <<>>) <= RecordLength(g, <<>>)

----------------------------------------------------------------------------
Cut(f, at, n) == SubSeq(f, at + 1, at + n)
U16At(f, at) == f[at + 1] + 256 * f[at + 2]
U32At(f, at) == f[at + 1] + 256 * f[at + 2] + 65536 * f[at + 3] + 16777216 * f[at + 4]
I32At(f, at) == f[at + 1] + 256 * f[at + 2] + 65536 * f[at + 3] + 16777216 * (IF f[at + 4] >= 128 THEN f[at + 4] - 256 ELSE f[at + 4])
\* numbers that do not fit are not numbers of anything here
Small32(f, at) == f[at + 4] < 127
Small64(f, at) == f[at + 4] < 127 /\ \A k \in 5..8 : f[at + k] = 0
HeaderSize(minor) == CASE minor <= 2 -> 227 [] minor = 3 -> 235 [] OTHER -> 375
PointsAt(f, laz) == U32At(f, 96) + (IF laz THEN 8 ELSE 0)
\* n records [u |-> user, r |-> number, d |-> data] from `at` on, and where they end; extended ones have 64 bit lengths
RECURSIVE Vlrs(_, _, _, _)
Vlrs(f, at, n, wide) ==
  IF n = 0 THEN [v |-> <<>>, e |-> at] ELSE
  LET h == IF wide THEN 60 ELSE 54 IN
  IF at + h > Len(f) THEN [v |-> <<>>, e |-> -1] ELSE
  LET len == IF wide THEN (IF Small64(f, at + 20) THEN U32At(f, at + 20) ELSE Len(f)) ELSE U16At(f, at + 20) IN
  IF at + h + len > Len(f) THEN [v |-> <<>>, e |-> -1] ELSE
  LET rest == Vlrs(f, at + h + len, n - 1, wide)
  IN [v |-> << [u |-> Cut(f, at + 2, 16), r |-> U16At(f, at + 18), d |-> Cut(f, at + h, len)] >> \o rest.v, e |-> rest.e]
IsLazVlr(v) == v.r = 22204

\* what can be read of the beginning of the file
HeaderOK(c, f) ==
  /\ Len(f) >= HeaderSize(c.minor) /\ Cut(f, 0, 4) = <<76, 65, 83, 70>> /\ f[25] = 1 /\ f[26] = c.minor
  /\ Cut(f, 4, 2) = c.fix.source /\ Cut(f, 8, 16) = c.fix.guid /\ Cut(f, 26, 32) = c.fix.system /\ Cut(f, 58, 32) = c.fix.software /\ Cut(f, 90, 4) = c.fix.date
  /\ U16At(f, 94) = HeaderSize(c.minor) /\ Small32(f, 96) /\ Small32(f, 100)
  /\ f[105] % 64 = c.fmt /\ (f[105] >= 64) = c.laz /\ U16At(f, 105) = RecordLength(c.fmt, c.extra)
  /\ \A k \in 1..3 : Cut(f, 131 + 8 * (k - 1), 8) = c.sb[k] /\ Cut(f, 155 + 8 * (k - 1), 8) = c.ob[k]
VlrsOK(c, f) ==
  LET vs == Vlrs(f, HeaderSize(c.minor), U32At(f, 100), FALSE)
  IN /\ vs.e # -1 /\ vs.e + Len(c.pad) = U32At(f, 96) /\ Cut(f, vs.e, Len(c.pad)) = c.pad
     /\ (IF c.laz THEN SelectSeq(vs.v, LAMBDA v : ~IsLazVlr(v)) = c.vlrs /\ Len(vs.v) = Len(c.vlrs) + 1 ELSE vs.v = c.vlrs)
EndOfPoints(c, f, n) == PointsAt(f, c.laz) + n * RecordLength(c.fmt, c.extra)
EvlrsOK(c, f, n) ==
  IF c.minor < 4 THEN c.evlrs = <<>> /\ (c.laz \/ Len(f) = EndOfPoints(c, f, n))
  ELSE /\ Small32(f, 243) /\ U32At(f, 243) = Len(c.evlrs)
       /\ IF c.evlrs = <<>> THEN c.laz \/ Len(f) = EndOfPoints(c, f, n)
          ELSE /\ Small64(f, 235) /\ U32At(f, 235) >= EndOfPoints(c, f, n)
               /\ (c.laz \/ U32At(f, 235) = EndOfPoints(c, f, n))
               /\ LET vs == Vlrs(f, U32At(f, 235), Len(c.evlrs), TRUE) IN vs.e = Len(f) /\ vs.v = c.evlrs
Record(c, f, i) == Cut(f, PointsAt(f, c.laz) + (i - 1) * RecordLength(c.fmt, c.extra), RecordLength(c.fmt, c.extra))
\* the value of a part of the flags of a record; flags begin after the position and the intensity
FlagBits(fmt, rec) == BitsOf(Cut(rec, 14, IF Ext(fmt) THEN 2 ELSE 1))
PartOf(fmt, rec, b) == ToNat(SubSeq(FlagBits(fmt, rec), b[2] + 1, b[2] + b[3]))
Returns(c, f, n) == [i \in 1..n |-> PartOf(c.fmt, Record(c, f, i), Bitfields(c.fmt)[1])]
CountsOK(c, f, n) ==
  LET by == Returns(c, f, n)
      num(r) == Cardinality({ i \in 1..n : by[i] = r })
  IN /\ U32At(f, 107) = (IF Ext(c.fmt) THEN 0 ELSE n)
     /\ \A r \in 1..5 : U32At(f, 111 + 4 * (r - 1)) = (IF Ext(c.fmt) THEN 0 ELSE num(r))
     /\ (c.minor >= 4 => /\ Small64(f, 247) /\ U32At(f, 247) = n
                         /\ \A r \in 1..15 : Small64(f, 255 + 8 * (r - 1)) /\ U32At(f, 255 + 8 * (r - 1)) = num(r))

----------------------------------------------------------------------------
\* numbers in eighths: of integers, and of floats below 2^20
IntOf(t, b) == IF IsSigned(t) /\ b[Len(b)] = 1 THEN -ToNat(Negated(b)) ELSE ToNat(b)
EighthsF(t, b) ==
  LET x == Exp(t, b) - Bias(t) + 3
      m == Mant(t, b)
      top == IF x <= 0 THEN <<>> ELSE SubSeq(m, MantBits(t) - x + 1, MantBits(t))
      v == ToNat(top) + 2 ^ (IF x < 0 THEN 0 ELSE x)
  IN IF IsZero(SubSeq(b, 1, Len(b) - 1)) THEN 0 ELSE IF Sign(b) = 1 THEN -v ELSE v
EighthsOf(t, b) == IF IsFloat(t) THEN EighthsF(t, b) ELSE 8 * IntOf(t, b)
WholeEighths(t, b) == ~IsFloat(t) \/ IsZero(SubSeq(b, 1, Len(b) - 1)) \/ LET x == Exp(t, b) - Bias(t) + 3 IN x >= 0 /\ x <= 23 /\ IsZero(SubSeq(Mant(t, b), 1, MantBits(t) - x))
Abs(x) == IF x < 0 THEN -x ELSE x

\* a point q that is to be stored: q.lay its attributes, q.p their bytes, q.loc the stored position if it is on the grid
IndexIn(ds, n) == LET s == { i \in DOMAIN ds : ds[i].n = n } IN IF s = {} THEN 0 ELSE CHOOSE i \in s : TRUE
PosEighths(q) == LET k == IndexIn(q.lay, "Position3D") IN
  IF k = 0 THEN <<0, 0, 0>> ELSE LET t == q.lay[k].d.t IN [a \in 1..3 |-> EighthsOf(ElemOf[t], Comps(Prim(t), q.p[k])[a])]
\* integer v is the nearest to position p (either one in the middle)
Nearest(v, p, s, o) == 2 * Abs(v * s + o - p) <= s
PosStored(c, q, rec) ==
  IF c.grid THEN \A a \in 1..3 : I32At(rec, 4 * (a - 1)) = q.loc[a]
  ELSE LET p == PosEighths(q) IN \A a \in 1..3 : Abs(I32At(rec, 4 * (a - 1))) < 10000000 /\ Nearest(I32At(rec, 4 * (a - 1)), p[a], c.s[a], c.o[a])
\* bytes b of data type d are the value of the attribute with that name, zero if there is none
ItemStored(q, n, d, b) == LET k == IndexIn(q.lay, n) IN IF k = 0 THEN \A i \in DOMAIN b : b[i] = 0 ELSE SameValue(q.lay[k].d, q.p[k], d, b)
PointStored(c, q, rec) ==
  LET ds == RecordDefs(c.fmt, c.extra)
      at == Places(c.fmt, c.extra)
  IN /\ PosStored(c, q, rec)
     /\ \A k \in DOMAIN Bitfields(c.fmt) : ItemStored(q, Bitfields(c.fmt)[k][1], Prim("U8"), <<PartOf(c.fmt, rec, Bitfields(c.fmt)[k])>>)
     /\ \A k \in DOMAIN ds : k \in {1, 3} \/ ItemStored(q, ds[k].n, ds[k].d, Cut(rec, at[k], SizeOf(ds[k].d)))
\* an attribute whose values the file has no way to store
Unstorable(c, lay) == LET ds == UserDefs(c.fmt, c.extra) IN
  \E k \in DOMAIN ds : LET i == IndexIn(lay, ds[k].n) IN i # 0 /\ ~CanConvert(lay[i].d, ds[k].d)
\* the bounds in the header are those of the positions
BoundsOK(c, f, qs) ==
  qs = <<>> \/ \A a \in 1..3 :
    LET hi == Cut(f, 179 + 16 * (a - 1), 8)
        lo == Cut(f, 187 + 16 * (a - 1), 8)
    IN IF c.grid
       THEN LET top == CHOOSE i \in DOMAIN qs : \A j \in DOMAIN qs : qs[j].loc[a] <= qs[i].loc[a]
                low == CHOOSE i \in DOMAIN qs : \A j \in DOMAIN qs : qs[j].loc[a] >= qs[i].loc[a]
                bytes(i) == Cut(qs[i].p[IndexIn(qs[i].lay, "Position3D")], 8 * (a - 1), 8)
            IN hi = bytes(top) /\ lo = bytes(low)
       ELSE LET ps == { PosEighths(qs[i])[a] : i \in DOMAIN qs }
            IN /\ WholeEighths("F64", BitsOf(hi)) /\ WholeEighths("F64", BitsOf(lo))
               /\ 2 * Abs(EighthsOf("F64", BitsOf(hi)) - Max(ps)) <= c.s[a] /\ 2 * Abs(EighthsOf("F64", BitsOf(lo)) - Min(ps)) <= c.s[a]
\* the file has these points
FileOK(c, f, qs) ==
  LET n == Len(qs) IN
  /\ HeaderOK(c, f) /\ VlrsOK(c, f) /\ Len(f) >= EndOfPoints(c, f, n) /\ EvlrsOK(c, f, n) /\ CountsOK(c, f, n)
  /\ \A i \in 1..n : PointStored(c, qs[i], Record(c, f, i))
  /\ BoundsOK(c, f, qs)

----------------------------------------------------------------------------
\* reading: the value v of an attribute of a point with record rec; w: its position (bytes) if it is on the grid
PosRead(c, d, v, rec, w) ==
  IF c.grid THEN IF d.t = "Vec3f64" THEN v = w[1] \o w[2] \o w[3]
                 ELSE SameValue(Prim("Vec3f64"), w[1] \o w[2] \o w[3], d, v)
  ELSE LET x == Comps(d, v) IN \A a \in 1..3 : WholeEighths(ElemOf[d.t], x[a]) /\ EighthsOf(ElemOf[d.t], x[a]) = I32At(rec, 4 * (a - 1)) * c.s[a] + c.o[a]
ReadsAs(c, def, v, rec, w) ==
  IF def.n = "Position3D" THEN PosRead(c, def.d, v, rec, w)
  ELSE LET bs == Bitfields(c.fmt)
           b == { k \in DOMAIN bs : bs[k][1] = def.n }
           ds == RecordDefs(c.fmt, c.extra)
           i == IndexIn(ds, def.n)
       IN IF b # {} THEN \A k \in b : SameValue(Prim("U8"), <<PartOf(c.fmt, rec, bs[k])>>, def.d, v)
          ELSE i = 0 \/ SameValue(ds[i].d, Cut(rec, Before(ds, i), SizeOf(ds[i].d)), def.d, v)
ReadableInto(c, defs) == \A k \in DOMAIN defs :
  IF defs[k].n = "Position3D" THEN defs[k].d.t \in {"Vec3f64", "Vec3f32"}
  ELSE IF \E b \in DOMAIN Bitfields(c.fmt) : Bitfields(c.fmt)[b][1] = defs[k].n THEN CanConvert(Prim("U8"), defs[k].d)
  ELSE LET ds == RecordDefs(c.fmt, c.extra) i == IndexIn(ds, defs[k].n) IN i = 0 \/ CanConvert(ds[i].d, defs[k].d)
=============================================================================
