-------------------------------- MODULE Layout --------------------------------
(* Point layouts.  A layout is a list of attributes, each a name, a data type *)
(* and a byte offset, plus the size and alignment of a point.  The rules are  *)
(* those of C structs (repr(C), repr(packed(N))).                             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

(* Data types: [t |-> name, n |-> size, m |-> alignment, u |-> id]; n, m, u   *)
(* only mean something for byte arrays (n) and custom types (n, m, u).        *)
Scalars == {"U8","I8","U16","I16","U32","I32","U64","I64","F32","F64"}
Vec3s   == {"Vec3u8","Vec3u16","Vec3i32","Vec3f32","Vec3f64"}
Prims   == Scalars \union Vec3s \union {"Vec4u8"}

ElemSize == [t \in Prims |->
  CASE t \in {"U8","I8","Vec3u8","Vec4u8"} -> 1
    [] t \in {"U16","I16","Vec3u16"} -> 2
    [] t \in {"U32","I32","F32","Vec3i32","Vec3f32"} -> 4
    [] OTHER -> 8]
Elems == [t \in Prims |-> IF t \in Vec3s THEN 3 ELSE IF t = "Vec4u8" THEN 4 ELSE 1]
PrimSize == [t \in Prims |-> ElemSize[t] * Elems[t]]

Prim(t) == [t |-> t, n |-> 0, m |-> 0, u |-> 0]
SizeOf(d)  == IF d.t \in Prims THEN PrimSize[d.t] ELSE d.n
AlignOf(d) == IF d.t \in Prims THEN ElemSize[d.t] ELSE IF d.t = "ByteArray" THEN 1 ELSE d.m

(* The attributes pasture knows by name *)
BuiltinList == <<
  <<"POSITION_3D", "Position3D", "Vec3f64">>, <<"INTENSITY", "Intensity", "U16">>,
  <<"RETURN_NUMBER", "ReturnNumber", "U8">>, <<"NUMBER_OF_RETURNS", "NumberOfReturns", "U8">>,
  <<"CLASSIFICATION_FLAGS", "ClassificationFlags", "U8">>, <<"SCANNER_CHANNEL", "ScannerChannel", "U8">>,
  <<"SCAN_DIRECTION_FLAG", "ScanDirectionFlag", "U8">>, <<"EDGE_OF_FLIGHT_LINE", "EdgeOfFlightLine", "U8">>,
  <<"CLASSIFICATION", "Classification", "U8">>, <<"SCAN_ANGLE_RANK", "ScanAngleRank", "I8">>,
  <<"SCAN_ANGLE", "ScanAngle", "I16">>, <<"USER_DATA", "UserData", "U8">>,
  <<"POINT_SOURCE_ID", "PointSourceID", "U16">>, <<"COLOR_RGB", "ColorRGB", "Vec3u16">>,
  <<"GPS_TIME", "GpsTime", "F64">>, <<"NIR", "NIR", "U16">>,
  <<"WAVE_PACKET_DESCRIPTOR_INDEX", "WavePacketDescriptorIndex", "U8">>,
  <<"WAVEFORM_DATA_OFFSET", "WaveformDataOffset", "U64">>, <<"WAVEFORM_PACKET_SIZE", "WaveformPacketSize", "U32">>,
  <<"RETURN_POINT_WAVEFORM_LOCATION", "ReturnPointWaveformLocation", "F32">>,
  <<"WAVEFORM_PARAMETERS", "WaveformParameters", "Vec3f32">>, <<"POINT_ID", "PointID", "U64">>,
  <<"NORMAL", "Normal", "Vec3f32">> >>

----------------------------------------------------------------------------
RoundUp(x, a) == IF a = 0 THEN x ELSE ((x + a - 1) \div a) * a
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b

Empty == [attrs |-> <<>>, size |-> 0, align |-> 1]

EndOf(a) == a.o + SizeOf(a.d)
EndAll(l) == Max({0} \union { EndOf(l.attrs[i]) : i \in DOMAIN l.attrs })
NamesOf(l) == { l.attrs[i].n : i \in DOMAIN l.attrs }

\* packing 0: natural alignment; packing N: at most N
FieldAlign(d, packing) == IF packing = 0 THEN AlignOf(d) ELSE Min2(packing, AlignOf(d))

CanAdd(l, def) == def.n \notin NamesOf(l)
Added(l, def, packing) ==
  LET off == RoundUp(EndAll(l), FieldAlign(def.d, packing))
      big == Max2(l.align, AlignOf(def.d))
      al  == IF packing = 0 THEN big ELSE Min2(packing, big)
  IN [attrs |-> Append(l.attrs, [n |-> def.n, d |-> def.d, o |-> off]),
      size  |-> RoundUp(Max2(l.size, off + SizeOf(def.d)), al),
      align |-> al]

UniqueNames(defs) == Cardinality({ defs[i].n : i \in DOMAIN defs }) = Len(defs)

FromAttributes(defs, packing) == FoldLeft(LAMBDA l, d : Added(l, d, packing), Empty, defs)

\* explicit members (with their offsets) and alignment
Overlap(a, b) == a.o < EndOf(b) /\ b.o < EndOf(a) /\ SizeOf(a.d) > 0 /\ SizeOf(b.d) > 0
ValidMembers(ms) ==
  /\ UniqueNames(ms)
  /\ \A i, j \in DOMAIN ms : i < j => ~Overlap(ms[i], ms[j])
\* layouts with members that take no space may be refused
HasEmptyMember(ms) == \E i \in DOMAIN ms : SizeOf(ms[i].d) = 0
FromMembers(ms, al) ==
  LET l == [attrs |-> ms, size |-> 0, align |-> al] IN [l EXCEPT !.size = RoundUp(EndAll(l), al)]

----------------------------------------------------------------------------
(* Questions about a layout *)
IndexOfName(l, nm) == LET s == { i \in DOMAIN l.attrs : l.attrs[i].n = nm } IN IF s = {} THEN 0 ELSE Min(s)
IndexOfDef(l, nm, d) == LET s == { i \in DOMAIN l.attrs : l.attrs[i].n = nm /\ l.attrs[i].d = d } IN IF s = {} THEN 0 ELSE Min(s)

SameAttributes(a, b) ==
  /\ Len(a.attrs) = Len(b.attrs)
  /\ { <<a.attrs[i].n, a.attrs[i].d>> : i \in DOMAIN a.attrs } = { <<b.attrs[i].n, b.attrs[i].d>> : i \in DOMAIN b.attrs }

----------------------------------------------------------------------------
(* What has to hold of every layout, however it came about *)
NoOverlap(l) == \A i, j \in DOMAIN l.attrs : i < j => ~Overlap(l.attrs[i], l.attrs[j])
InsidePoint(l) == \A i \in DOMAIN l.attrs : EndOf(l.attrs[i]) <= l.size
SizeAligned(l) == l.size % l.align = 0
DistinctNames(l) == UniqueNames(l.attrs)
Sane(l) == NoOverlap(l) /\ InsidePoint(l) /\ SizeAligned(l) /\ DistinctNames(l)
=============================================================================
