------------------------------ MODULE Conversion ------------------------------
(* Converting buffers between layouts.  A converter maps target attributes to *)
(* source attributes, optionally with a transformation on the source or the   *)
(* target side.  Attribute values are sequences of numbers, in units of one   *)
(* half (so that conversions to integers lose something).                     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Scalars == {"U8","I8","U16","I16","U32","I32","U64","I64","F32","F64"}
Vec3s   == {"Vec3u8","Vec3u16","Vec3i32","Vec3f32","Vec3f64"}
Convertible(f, t) == f = t \/ (f \in Scalars /\ t \in Scalars) \/ (f \in Vec3s /\ t \in Vec3s)
Elem(t) == CASE t = "Vec3u8" -> "U8" [] t = "Vec3u16" -> "U16" [] t = "Vec3i32" -> "I32"
             [] t = "Vec3f32" -> "F32" [] t = "Vec3f64" -> "F64" [] t = "Vec4u8" -> "U8" [] OTHER -> t
Comps(t) == IF t \in Vec3s THEN 3 ELSE IF t = "Vec4u8" THEN 4 ELSE 1
IsFloat(t) == t \in {"F32", "F64"}

Trunc(h) == IF h >= 0 THEN h \div 2 ELSE -((-h) \div 2)
Clamp(v, lo, hi) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v
Saturated(v, t) == CASE t = "U8" -> Clamp(v, 0, 255) [] t = "I8" -> Clamp(v, -128, 127) [] t = "U16" -> Clamp(v, 0, 65535)
                     [] t = "I16" -> Clamp(v, -32768, 32767) [] t \in {"U32","U64"} -> IF v < 0 THEN 0 ELSE v [] OTHER -> v
Wrapped(v, t) == CASE t = "U8" -> v % 256 [] t = "I8" -> ((v + 128) % 256) - 128 [] t = "U16" -> v % 65536
                   [] t = "I16" -> ((v + 32768) % 65536) - 32768 [] OTHER -> v
ConvComp(f, t, h) == IF f = t \/ IsFloat(t) THEN h
                     ELSE IF IsFloat(f) THEN 2 * Saturated(Trunc(h), t) ELSE 2 * Wrapped(h \div 2, t)
Conv(f, t, v) == [k \in DOMAIN v |-> ConvComp(Elem(f), Elem(t), v[k])]

\* transformation number n (0: none) on values of type t
XComp(t, n, h) == CASE n = 0 -> h
                    [] n = 1 -> IF IsFloat(t) THEN 3 * h + 1 ELSE 2 * ((3 * (h \div 2) + 1) % 97)
                    [] n = 2 -> IF IsFloat(t) THEN 5 - h ELSE 2 * ((5 * (h \div 2) + 3) % 101)
X(t, n, v) == [k \in DOMAIN v |-> XComp(Elem(t), n, v[k])]

ZeroValue(t) == [k \in 1..Comps(t) |-> 0]

----------------------------------------------------------------------------
VARIABLES from, to,   \* attributes of the two layouts: [n |-> name, t |-> type]
          map         \* per target attribute: [src |-> source index (0: none), x |-> transformation, pre |-> on the source side]
cvars == <<from, to, map>>

NoSource == [src |-> 0, x |-> 0, pre |-> FALSE]
ByName(as, n) == LET s == { i \in DOMAIN as : as[i].n = n } IN IF s = {} THEN 0 ELSE CHOOSE i \in s : TRUE
ByDef(as, n, t) == LET s == { i \in DOMAIN as : as[i].n = n /\ as[i].t = t } IN IF s = {} THEN 0 ELSE CHOOSE i \in s : TRUE

\* default mappings: by name.  Every target needs a source unless defaults are asked for
CanCreate(f, t, defaults) ==
  \A j \in DOMAIN t : LET i == ByName(f, t[j].n)
                      IN IF i = 0 THEN defaults ELSE Convertible(f[i].t, t[j].t)
Create(f, t) == /\ from' = f /\ to' = t
                /\ map' = [j \in DOMAIN t |-> [NoSource EXCEPT !.src = ByName(f, t[j].n)]]

\* custom mapping of source attribute a to target attribute b
CanMap(a, b, x, pre, tt) ==
  LET i == ByDef(from, a.n, a.t)
      j == ByDef(to, b.n, b.t)
  IN i # 0 /\ j # 0 /\ Convertible(a.t, b.t) /\ (x # 0 => tt = IF pre THEN a.t ELSE b.t)
Mapped(a, b, x, pre) ==
  /\ map' = [map EXCEPT ![ByDef(to, b.n, b.t)] = [src |-> ByDef(from, a.n, a.t), x |-> x, pre |-> pre]]
  /\ UNCHANGED <<from, to>>

Value(p, j) ==
  LET m == map[j]
      f == from[m.src].t
      t == to[j].t
  IN IF m.pre THEN Conv(f, t, X(f, m.x, p[m.src])) ELSE X(t, m.x, Conv(f, t, p[m.src]))
\* old is what a target without a source keeps
Point(p, old) == [j \in DOMAIN to |-> IF map[j].src = 0 THEN old[j] ELSE Value(p, j)]
ZeroPt == [j \in DOMAIN to |-> ZeroValue(to[j].t)]

Converted(ps) == [i \in DOMAIN ps |-> Point(ps[i], ZeroPt)]
\* the points a..b-1 of ps over the points from c on of pre
ConvertedInto(ps, a, b, pre, c) ==
  [i \in DOMAIN pre |-> IF c < i /\ i <= c + (b - a) THEN Point(ps[a + (i - c)], pre[i]) ELSE pre[i]]
=============================================================================
