---------------------------------- MODULE Pnts ----------------------------------
(* 3D Tiles point cloud files: a header of 28 bytes, the feature table (JSON   *)
(* and binary body), the batch table.  The JSON is given as its entries:       *)
(* [n |-> name, k |-> "ref" / "num" / "arr" / "other", o |-> offset or number, *)
(* a |-> numbers, in units of one eighth].                                     *)
EXTENDS Untyped
Semantics == << <<"POSITION", "Position3D", "Vec3f32">>, <<"RGBA", "ColorRGBA", "Vec4u8">>, <<"RGB", "ColorRGB", "Vec3u8">>, <<"NORMAL", "Normal", "Vec3f32">> >>
SemOf(name) == LET s == { i \in DOMAIN Semantics : Semantics[i][2] = name } IN IF s = {} THEN 0 ELSE CHOOSE i \in s : TRUE
Known(e) == e.k = "ref" /\ \E i \in DOMAIN Semantics : Semantics[i][1] = e.n
TypeOf(e) == LET i == CHOOSE k \in DOMAIN Semantics : Semantics[k][1] = e.n IN Semantics[i][3]
AttrNameOf(e) == LET i == CHOOSE k \in DOMAIN Semantics : Semantics[k][1] = e.n IN Semantics[i][2]
HasEntry(es, n) == \E i \in DOMAIN es : es[i].n = n
Entry(es, n) == es[CHOOSE i \in DOMAIN es : es[i].n = n]
PointsLength(es) == Entry(es, "POINTS_LENGTH").o

U32At(f, at) == f[at + 1] + 256 * f[at + 2] + 65536 * f[at + 3] + 16777216 * f[at + 4]
FtJson(f) == U32At(f, 12)
FtBody(f) == U32At(f, 16)
BtJson(f) == U32At(f, 20)
BtBody(f) == U32At(f, 24)
BodyStart(f) == 28 + FtJson(f)
EntrySize(e, n) == n * PrimSize[TypeOf(e)]

\* sections follow each other, each begins at a multiple of 8; the JSON of the feature table (json bytes of it) is filled with spaces
Wellformed(f, es, json) ==
  /\ Len(f) >= 28 /\ SubSeq(f, 1, 4) = <<112, 110, 116, 115>> /\ U32At(f, 4) = 1 /\ U32At(f, 8) <= Len(f)
  /\ 28 + FtJson(f) + FtBody(f) + BtJson(f) + BtBody(f) = U32At(f, 8)
  /\ BodyStart(f) % 8 = 0 /\ (BodyStart(f) + FtBody(f)) % 8 = 0 /\ U32At(f, 8) % 8 = 0
  /\ json <= FtJson(f) /\ \A k \in (28 + json + 1)..BodyStart(f) : f[k] = 32
  /\ \A i, j \in DOMAIN es : es[i].n = es[j].n => i = j
  /\ LET n == PointsLength(es)
         rs == { es[i] : i \in { k \in DOMAIN es : Known(es[k]) } }
     IN \A e \in rs : /\ e.o % ElemSize[TypeOf(e)] = 0 /\ e.o + EntrySize(e, n) <= FtBody(f)
                      /\ \A g \in rs : g = e \/ n = 0 \/ e.o + EntrySize(e, n) <= g.o \/ g.o + EntrySize(g, n) <= e.o

\* the bytes of the i-th value of an entry
ValueAt(f, e, i) == LET s == PrimSize[TypeOf(e)] a == BodyStart(f) + e.o + s * (i - 1) IN SubSeq(f, a + 1, a + s)

\* numbers in eighths, exactly; the value of a float below 2^20
RECURSIVE NatOfBits(_)
NatOfBits(b) == IF b = <<>> THEN 0 ELSE b[1] + 2 * NatOfBits(Tail(b))
EighthsOf(t, b) ==
  LET x == Exp(t, b) - Bias(t) + 3   \* the leading bit stands for 2^x eighths
      m == Mant(t, b)
      top == IF x <= 0 THEN <<>> ELSE SubSeq(m, MantBits(t) - x + 1, MantBits(t))
      v == NatOfBits(top) + 2 ^ (IF x < 0 THEN 0 ELSE x)
  IN IF IsZero(SubSeq(b, 1, Len(b) - 1)) THEN 0 ELSE IF Sign(b) = 1 THEN -v ELSE v
WholeEighths(t, b) == IsZero(SubSeq(b, 1, Len(b) - 1)) \/ LET x == Exp(t, b) - Bias(t) + 3 IN x >= 0 /\ x <= 23 /\ IsZero(SubSeq(Mant(t, b), 1, MantBits(t) - x))
\* position bytes b of type d are the position a (of type f) moved by the center c
Moved(f, a, d, b, c) ==
  LET x == Comps(Prim(f), a) y == Comps(Prim(d), b) IN
  Len(b) = PrimSize[d] /\ \A k \in 1..3 : WholeEighths(ElemOf[f], x[k]) /\ WholeEighths(ElemOf[d], y[k])
                                          /\ EighthsOf(ElemOf[d], y[k]) = EighthsOf(ElemOf[f], x[k]) + c[k]
\* a value v of attribute def, read from point i of the file
ReadsAs(f, es, i, def, v, absolute) ==
  LET s == SemOf(def.n) IN
  s = 0 \/ ~HasEntry(es, Semantics[s][1]) \/
  LET e == Entry(es, Semantics[s][1]) IN
  IF s = 1 /\ absolute /\ HasEntry(es, "RTC_CENTER") THEN Moved(TypeOf(e), ValueAt(f, e, i), def.d.t, v, Entry(es, "RTC_CENTER").a)
  ELSE SameValue(Prim(TypeOf(e)), ValueAt(f, e, i), def.d, v)
\* the file can be read into these attributes
ReadableInto(es, defs) == \A k \in DOMAIN defs : LET s == SemOf(defs[k].n) IN
  s = 0 \/ ~HasEntry(es, Semantics[s][1]) \/ CanConvert(Prim(Semantics[s][3]), defs[k].d)
\* what the layout of the file is
FileDefs(es) == { [n |-> AttrNameOf(es[i]), d |-> Prim(TypeOf(es[i]))] : i \in { k \in DOMAIN es : Known(es[k]) } }

\* the points (bytes per attribute) are what the file stores, with this center
Stored(f, es, lay, pts, rtc) ==
  /\ PointsLength(es) = Len(pts)
  /\ { es[i].n : i \in DOMAIN es } = {"POINTS_LENGTH"} \cup { Semantics[SemOf(lay[k].n)][1] : k \in { j \in DOMAIN lay : SemOf(lay[j].n) # 0 } } \cup (IF rtc = <<>> THEN {} ELSE {"RTC_CENTER"})
  /\ (rtc # <<>> => Entry(es, "RTC_CENTER").a = rtc)
  /\ \A k \in DOMAIN lay : SemOf(lay[k].n) # 0 => LET e == Entry(es, Semantics[SemOf(lay[k].n)][1]) IN
       \A i \in DOMAIN pts : SameValue(lay[k].d, pts[i][k], Prim(TypeOf(e)), ValueAt(f, e, i))
=============================================================================
