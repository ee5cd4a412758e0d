-------------------------------- MODULE Casts --------------------------------
(* The numeric casts of the language ("as") between the scalar attribute      *)
(* types, bit for bit.                                                        *)
EXTENDS Bits, Layout

Width(t) == 8 * ElemSize[t]
IsFloat(t) == t \in {"F32", "F64"}
IsSigned(t) == t \in {"I8", "I16", "I32", "I64"}
MantBits(t) == IF t = "F32" THEN 23 ELSE 52
ExpBits(t)  == IF t = "F32" THEN 8 ELSE 11
Bias(t)     == IF t = "F32" THEN 127 ELSE 1023
ExpMax(t)   == IF t = "F32" THEN 255 ELSE 2047

Mant(t, b) == SubSeq(b, 1, MantBits(t))
Exp(t, b)  == ToNat(SubSeq(b, MantBits(t) + 1, MantBits(t) + ExpBits(t)))
Sign(b)    == b[Len(b)]
Pack(t, s, e, m) == m \o FromNat(e, ExpBits(t)) \o <<s>>
IsNaN(t, b) == IsFloat(t) /\ Exp(t, b) = ExpMax(t) /\ ~IsZero(Mant(t, b))
Infinity(t, s) == Pack(t, s, ExpMax(t), Zeros(MantBits(t)))

\* exponent e and the significant bits sig (the bit at position top is the leading one), rounded to
\* nearest, ties to even, into t; shift = number of positions of sig below the mantissa
Rounded(t, s, e, sig, shift) ==
  LET m == [j \in 1..MantBits(t) |-> Bit(sig, j - 1 + shift)]
      guard == Bit(sig, shift - 1)
      sticky == \E p \in 0..(shift - 2) : Bit(sig, p) = 1
      up == guard = 1 /\ (sticky \/ m[1] = 1)
      mag == m \o FromNat(e, ExpBits(t))
  IN (IF up THEN Incremented(mag) ELSE mag) \o <<s>>

IntToInt(f, t, b) ==
  [i \in 1..Width(t) |-> IF i <= Len(b) THEN b[i] ELSE IF IsSigned(f) THEN Sign(b) ELSE 0]

IntToFloat(f, t, b) ==
  LET s == IF IsSigned(f) THEN Sign(b) ELSE 0
      mag == IF s = 1 THEN Negated(b) ELSE b
      h == High(mag)
  IN IF h = -1 THEN Zeros(Width(t))
     ELSE Rounded(t, s, h + Bias(t), mag, h - MantBits(t))

MinInt(t) == Zeros(Width(t) - 1) \o <<1>>
MaxInt(t) == IF IsSigned(t) THEN Ones(Width(t) - 1) \o <<0>> ELSE Ones(Width(t))

FloatToInt(f, t, b) ==
  LET e == Exp(f, b)
      s == Sign(b)
      x == e - Bias(f)
      w == Width(t)
      mag == [i \in 1..w |-> IF i - 1 = x THEN 1 ELSE IF i - 1 > x THEN 0 ELSE Bit(Mant(f, b), MantBits(f) - x + i - 1)]
  IN CASE IsNaN(f, b) -> Zeros(w)
       [] ~IsNaN(f, b) /\ x < 0 -> Zeros(w)
       [] ~IsNaN(f, b) /\ x >= 0 /\ ~IsSigned(t) -> IF s = 1 THEN Zeros(w) ELSE IF x >= w THEN MaxInt(t) ELSE mag
       [] OTHER -> IF x >= w - 1 THEN (IF s = 1 THEN MinInt(t) ELSE MaxInt(t))
                   ELSE IF s = 1 THEN Negated(mag) ELSE mag

\* the only float to float casts: F32 to F64 and back (NaN handled by the caller)
Widened(b) ==
  LET e == Exp("F32", b)
      m == Mant("F32", b)
      h == High(m)
      s == Sign(b)
  IN CASE e = 255 -> Infinity("F64", s)
       [] e = 0 /\ h = -1 -> Pack("F64", s, 0, Zeros(52))
       [] e = 0 /\ h >= 0 -> Pack("F64", s, h - 149 + 1023, [j \in 1..52 |-> Bit(m, j - 1 - (52 - h))  * (IF j - 1 - (52 - h) < h THEN 1 ELSE 0)])
       [] OTHER -> Pack("F64", s, e - 127 + 1023, Zeros(29) \o m)

Narrowed(b) ==
  LET e == Exp("F64", b)
      s == Sign(b)
      x == e - 1023
      sig == Mant("F64", b) \o <<1>>
  IN CASE x > 127 -> Infinity("F32", s)
       [] x >= -126 /\ x <= 127 -> Rounded("F32", s, x + 127, Mant("F64", b), 29)
       [] x < -126 /\ x >= -152 -> Rounded("F32", s, 0, sig, 29 + (-126 - x))
       [] OTHER -> Pack("F32", s, 0, Zeros(23))

Cast(f, t, b) ==
  CASE f = t -> b
    [] f # t /\ ~IsFloat(f) /\ ~IsFloat(t) -> IntToInt(f, t, b)
    [] f # t /\ ~IsFloat(f) /\ IsFloat(t)  -> IntToFloat(f, t, b)
    [] f # t /\ IsFloat(f) /\ ~IsFloat(t)  -> FloatToInt(f, t, b)
    [] f = "F32" /\ t = "F64" -> Widened(b)
    [] OTHER -> Narrowed(b)

\* the value of a cast; a NaN stays some NaN
CastOK(f, t, b, r) == Len(r) = Width(t) /\ IF IsNaN(f, b) /\ IsFloat(t) THEN IsNaN(t, r) ELSE r = Cast(f, t, b)

ElemOf == [d \in Prims |-> CASE d = "Vec3u8" -> "U8" [] d = "Vec3u16" -> "U16" [] d = "Vec3i32" -> "I32"
                             [] d = "Vec3f32" -> "F32" [] d = "Vec3f64" -> "F64" [] d = "Vec4u8" -> "U8" [] OTHER -> d]

\* pairs of different data types that can be converted
Supported(f, t) == f # t /\ ((f \in Scalars /\ t \in Scalars) \/ (f \in Vec3s /\ t \in Vec3s))

\* attribute values are sequences of components
ConvertedOK(f, t, v, r) ==
  Len(r) = Len(v) /\ \A i \in DOMAIN v : CastOK(ElemOf[f], ElemOf[t], v[i], r[i])

----------------------------------------------------------------------------
(* Order of the values of a type (floats: numerically, no NaN) *)
SortKey(t, b) ==
  IF IsFloat(t) THEN (IF IsZero(SubSeq(b, 1, Len(b) - 1)) THEN Zeros(Len(b) - 1) \o <<1>>
                      ELSE IF Sign(b) = 1 THEN [i \in DOMAIN b |-> 1 - b[i]] ELSE [b EXCEPT ![Len(b)] = 1])
  ELSE IF IsSigned(t) THEN [b EXCEPT ![Len(b)] = 1 - @] ELSE b
ValueLess(t, a, b) == Less(SortKey(t, a), SortKey(t, b))
\* r is a smallest / largest of a and b
IsInf(t, a, b, r) == (r = a \/ r = b) /\ ~ValueLess(t, a, r) /\ ~ValueLess(t, b, r)
IsSup(t, a, b, r) == (r = a \/ r = b) /\ ~ValueLess(t, r, a) /\ ~ValueLess(t, r, b)
=============================================================================
