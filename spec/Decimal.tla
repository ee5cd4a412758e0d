-------------------------------- MODULE Decimal --------------------------------
(* Numbers written as text (sequences of character codes) and the 64-bit      *)
(* floats (sequences of 8 bytes, lowest first) they stand for, exactly.       *)
EXTENDS BigNat
Minus == 45
Plus == 43
Dot == 46
IsDigit(c) == c >= 48 /\ c <= 57
Digits(t) == SelectSeq(t, IsDigit)
AllDigits(t) == t # <<>> /\ \A i \in DOMAIN t : IsDigit(t[i])
Negative(t) == t # <<>> /\ t[1] = Minus
Body(t) == IF t # <<>> /\ t[1] \in {Plus, Minus} THEN Tail(t) ELSE t
IsWhole(t) == AllDigits(Body(t))
IsDecimal(t) == LET b == Body(t) IN
  /\ Digits(b) # <<>> /\ Len(Digits(b)) >= Len(b) - 1
  /\ \A i \in DOMAIN b : IsDigit(b[i]) \/ b[i] = Dot
\* number of digits behind the point
Places(t) == IF \E i \in DOMAIN t : t[i] = Dot THEN Len(t) - (CHOOSE i \in DOMAIN t : t[i] = Dot) ELSE 0
DigitAt(ds, i) == IF i >= 1 THEN ds[i] - 48 ELSE 0
\* all digits of the text as one number
Magnitude(t) == LET ds == Digits(t)
                    n == Len(ds)
                IN Trim([k \in 1..((n + 2) \div 3) |-> LET e == n - 3 * (k - 1) IN DigitAt(ds, e) + 10 * DigitAt(ds, e - 1) + 100 * DigitAt(ds, e - 2)])
Pow10(k) == [i \in 1..(k \div 3 + 1) |-> IF i <= k \div 3 THEN 0 ELSE IF k % 3 = 0 THEN 1 ELSE IF k % 3 = 1 THEN 10 ELSE 100]

RECURSIVE BigBytes(_)
BigBytes(bs) == IF bs = <<>> THEN <<>> ELSE BigAdd(BigMul(BigBytes(Tail(bs)), <<256>>), IF bs[1] = 0 THEN <<>> ELSE <<bs[1]>>)
RECURSIVE TwoTo(_)
TwoTo(n) == IF n < 9 THEN <<2 ^ n>> ELSE IF n % 2 = 1 THEN BigMul(<<2>>, TwoTo(n - 1)) ELSE LET h == TwoTo(n \div 2) IN BigMul(h, h)

FNeg(b) == b[8] >= 128
FExp(b) == 16 * (b[8] % 128) + (b[7] \div 16)
FFinite(b) == FExp(b) < 2047
FMant(b) == BigBytes(SubSeq(b, 1, 6) \o <<(b[7] % 16) + (IF FExp(b) = 0 THEN 0 ELSE 16)>>)
FScale(b) == (IF FExp(b) = 0 THEN 1 ELSE FExp(b)) - 1075
Ups(b) == IF FScale(b) > 0 THEN FScale(b) ELSE 0
Downs(b) == IF FScale(b) < 0 THEN -FScale(b) ELSE 0

\* | x - y | <= t for numbers with signs
Close(x, nx, y, ny, t) == IF nx = ny THEN ~BigLess(BigAdd(y, t), x) /\ ~BigLess(BigAdd(x, t), y) ELSE ~BigLess(t, BigAdd(x, y))
\* the text is the float rounded to p places (a tie goes either way)
RoundedTo(t, b, p) ==
  /\ IsDecimal(t) /\ Places(t) <= p /\ FFinite(b)
  /\ LET s == TwoTo(Downs(b)) IN
     Close(BigMul(BigMul(<<2>>, s), BigMul(Magnitude(t), Pow10(p - Places(t)))), Negative(t),
           BigMul(BigMul(<<2>>, FMant(b)), BigMul(TwoTo(Ups(b)), Pow10(p))), FNeg(b), s)
\* the float is the one next to the text
NextTo(t, b) ==
  /\ IsDecimal(t) /\ FFinite(b)
  /\ LET k == Pow10(Places(t)) u == TwoTo(Ups(b)) IN
     Close(BigMul(Magnitude(t), TwoTo(Downs(b) + 1)), Negative(t), BigMul(BigMul(<<2>>, FMant(b)), BigMul(u, k)), FNeg(b), BigMul(u, k))

\* its value between lo and hi (at most 5 digits matter)
WholeIn(t, lo, hi) == IsWhole(t) /\ LET m == Magnitude(t) IN Len(m) <= 2 /\ LET v == Digit(m, 1) + 1000 * Digit(m, 2) IN lo <= (IF Negative(t) THEN -v ELSE v) /\ (IF Negative(t) THEN -v ELSE v) <= hi
WholeOf(t) == LET m == Magnitude(t) v == Digit(m, 1) + 1000 * Digit(m, 2) IN IF Negative(t) THEN -v ELSE v
RECURSIVE NatText(_)
NatText(n) == IF n < 10 THEN <<48 + n>> ELSE NatText(n \div 10) \o <<48 + (n % 10)>>
WholeText(n) == IF n < 0 THEN <<Minus>> \o NatText(-n) ELSE NatText(n)
=============================================================================
