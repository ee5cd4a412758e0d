-------------------------------- MODULE MCCasts --------------------------------
(* The bit patterns that Casts gives, checked against the numbers they stand  *)
(* for: a walk through all values of the small integer types (or every        *)
(* Stride-th of them) and through floats of eighths, with every target type.  *)
EXTENDS Casts, Functions, TLC
CONSTANTS From, Stride
VARIABLES f, x, lo, hi
vars == <<f, x, lo, hi>>
RECURSIVE P2(_)
P2(n) == IF n = 0 THEN 1 ELSE 2 * P2(n - 1)
Lowest(t) == IF IsSigned(t) THEN -P2(Width(t) - 1) ELSE 0
Highest(t) == IF IsSigned(t) THEN P2(Width(t) - 1) - 1 ELSE P2(Width(t)) - 1
Small == {"U8", "I8", "U16", "I16"}
\* the bits of the integer v in type t
IntBits(t, v) == FromNat(IF v >= 0 THEN v ELSE P2(Width(t)) + v, Width(t))
\* the number that the bits of a small integer stand for
IntNum(t, b) == LET u == ToNat(b) IN IF IsSigned(t) /\ Sign(b) = 1 THEN u - P2(Width(t)) ELSE u
\* the number that the bits of a wider integer stand for, if it is between -2^20 and 2^20
IntNumWide(t, b) == IF IsSigned(t) /\ Sign(b) = 1 THEN (LET n == Negated(b) IN IF High(n) > 20 THEN P2(21) ELSE -ToNat(SubSeq(n, 1, 21)))
                    ELSE IF High(b) > 20 THEN P2(21) ELSE ToNat(SubSeq(b, 1, 21))
\* eight times the number that the bits of a float stand for (a multiple of an eighth below 2^20)
Times8(t, b) ==
  LET e == Exp(t, b) - Bias(t) + 3   \* exponent of the leading bit of eight times the number
      m == Mant(t, b)
      mag == IF Exp(t, b) = 0 THEN 0 ELSE FoldFunctionOnSet(LAMBDA bit, s : s + bit, P2(e), [i \in 1..MantBits(t) |-> IF m[i] = 1 THEN (IF i - 1 - MantBits(t) + e >= 0 THEN P2(i - 1 - MantBits(t) + e) ELSE 0) ELSE 0], 1..MantBits(t))
  IN IF Sign(b) = 1 THEN -mag ELSE mag
\* and the bits below are zero
Eighths(t, b) == \A i \in 1..MantBits(t) : i - 1 - MantBits(t) + (Exp(t, b) - Bias(t) + 3) < 0 => Mant(t, b)[i] = 0
Abs(v) == IF v < 0 THEN -v ELSE v
Trunc8(v) == IF v < 0 THEN -((-v) \div 8) ELSE v \div 8
\* a float from eighths: made from its definition, not by a cast
FloatBits(t, v) ==
  IF v = 0 THEN Zeros(Width(t)) ELSE
  LET a == Abs(v) h == High(FromNat(a, 25)) IN
  Pack(t, IF v < 0 THEN 1 ELSE 0, h - 3 + Bias(t), [i \in 1..MantBits(t) |-> Bit(FromNat(a, 25), i - 1 - MantBits(t) + h)])

Bits_(t, v) == IF IsFloat(t) THEN FloatBits(t, v) ELSE IntBits(t, v)
Init == /\ f \in From
        /\ lo = (IF IsFloat(f) THEN -8 * 70 ELSE Lowest(f)) /\ hi = (IF IsFloat(f) THEN 8 * 520 ELSE Highest(f)) /\ x = lo
Next == x < hi /\ x' = (IF x + Stride > hi THEN hi ELSE x + Stride) /\ UNCHANGED <<f, lo, hi>>
Spec == Init /\ [][Next]_vars

In == Bits_(f, x)
Wrap(t, v) == LET w == v % P2(Width(t)) IN IF IsSigned(t) /\ w > Highest(t) THEN w - P2(Width(t)) ELSE w
Clamp(t, v) == IF v < Lowest(t) THEN Lowest(t) ELSE IF v > Highest(t) THEN Highest(t) ELSE v
\* integers to integers: the same number modulo 2^width
IntInt == ~IsFloat(f) => \A t \in Scalars \ {"F32", "F64"} : LET r == Cast(f, t, In) IN
  IF t \in Small THEN IntNum(t, r) = Wrap(t, x)
  ELSE Len(r) = Width(t) /\ (x >= 0 \/ IsSigned(t) => IntNumWide(t, r) = x)
       /\ (x < 0 /\ ~IsSigned(t) => Negated(r) = FromNat(-x, 20) \o Zeros(Width(t) - 20))
\* integers to floats: exact, and back again
IntFloat == ~IsFloat(f) => \A t \in {"F32", "F64"} : LET r == Cast(f, t, In) IN
  /\ Times8(t, r) = 8 * x /\ Eighths(t, r) /\ Cast(t, f, r) = In
  /\ (x = 0 => r = Zeros(Width(t)))
\* floats to integers: towards zero, and at most to the end of the type
FloatInt == IsFloat(f) => \A t \in Scalars \ {"F32", "F64"} : LET r == Cast(f, t, In) IN
  IF t \in Small THEN IntNum(t, r) = Clamp(t, Trunc8(x)) ELSE IntNumWide(t, r) = (IF IsSigned(t) THEN Trunc8(x) ELSE IF x < 0 THEN 0 ELSE Trunc8(x))
FloatFloat == IsFloat(f) => LET t == IF f = "F32" THEN "F64" ELSE "F32" r == Cast(f, t, In) IN
  /\ Times8(f, In) = x /\ Times8(t, r) = x /\ Eighths(t, r) /\ Cast(t, f, r) = In
\* one cast after the other is the direct one if the one between loses nothing
Through == ~IsFloat(f) => \A m \in Scalars :
  /\ ~IsFloat(m) /\ Width(m) > Width(f) /\ (IsSigned(m) \/ ~IsSigned(f)) => \A t \in Scalars : Cast(m, t, Cast(f, m, In)) = Cast(f, t, In)
  /\ IsFloat(m) => \A t \in {"F32", "F64"} : Cast(m, t, Cast(f, m, In)) = Cast(f, t, In)
\* casts to floats and saturating casts keep the order; the smaller and the larger of two values
Order == x < hi => LET y == Bits_(f, x + 1) IN
  /\ ValueLess(f, In, y) /\ ~ValueLess(f, y, In) /\ ~ValueLess(f, In, In)
  /\ \A t \in Scalars : (IsFloat(f) \/ IsFloat(t)) => ~ValueLess(t, Cast(f, t, y), Cast(f, t, In))
  /\ IsInf(f, In, y, In) /\ IsInf(f, y, In, In) /\ ~IsInf(f, In, y, y) /\ IsSup(f, In, y, y) /\ IsSup(f, y, In, y) /\ ~IsSup(f, y, In, In)
\* more digits than a float has: to the nearest one, in the middle to the even one
Rounding == f = "U8" => \A k \in 24..28 : \A base \in { P2(k), P2(k) + P2(k - 1), P2(k + 1) - 256 } : \A t \in {"I32", "U32", "I64", "U64", "F64"} :
  LET n == base + x
      b == IF t = "F64" THEN Cast("U32", "F64", FromNat(n, 32)) ELSE FromNat(n, 29) \o Zeros(Width(t) - 29)
      r == ToNat(SubSeq(Cast("F32", "U64", Cast(t, "F32", b)), 1, 30))
      ulp == P2(k - 23)
      up == r = P2(k + 1)   \* rounded up to the next power of two
  IN /\ r % ulp = 0 /\ 2 * Abs(r - n) <= ulp
     /\ (2 * Abs(r - n) = ulp => (r \div ulp) % 2 = 0)
     /\ (up => n > P2(k + 1) - ulp)
     /\ (IsSigned(t) => LET m == Cast(t, "F32", Negated(b)) IN m = [Cast(t, "F32", b) EXCEPT ![32] = 1])
=============================================================================
