-------------------------------- MODULE BigNat --------------------------------
(* Natural numbers beyond the integers of the checker: base 1000 digits,      *)
(* least significant first, no leading zeros (0 is the empty sequence).       *)
EXTENDS Integers, Sequences
Base == 1000
Digit(a, i) == IF i <= Len(a) THEN a[i] ELSE 0

RECURSIVE Trim(_)
Trim(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN Trim(SubSeq(a, 1, Len(a) - 1)) ELSE a

RECURSIVE Carry(_, _)
\* propagates carries of a sequence of digit sums
Carry(a, c) == IF a = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c % Base>> \o Carry(<<>>, c \div Base))
               ELSE <<(a[1] + c) % Base>> \o Carry(Tail(a), (a[1] + c) \div Base)

BigAdd(a, b) == LET n == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
                IN Trim(Carry([i \in 1..n |-> Digit(a, i) + Digit(b, i)], 0))

RECURSIVE SumProd(_, _, _, _)
SumProd(a, b, k, i) == IF i > k THEN 0 ELSE Digit(a, i) * Digit(b, k + 1 - i) + SumProd(a, b, k, i + 1)
BigMul(a, b) == Trim(Carry([k \in 1..(Len(a) + Len(b)) |-> SumProd(a, b, k, 1)], 0))

RECURSIVE BigLessFrom(_, _, _)
BigLessFrom(a, b, i) == IF i = 0 THEN FALSE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE BigLessFrom(a, b, i - 1)
BigLess(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ BigLessFrom(a, b, Len(a)))

RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN <<1>> ELSE LET p == Pow2(n - 1) IN BigAdd(p, p)

\* r is the smallest multiple of a that is not below x (q witnesses that it is a multiple)
IsAligned(x, a, q, r) == IF a = <<>> THEN r = x
                         ELSE r = BigMul(q, a) /\ ~BigLess(r, x) /\ BigLess(r, BigAdd(x, a))
\* there is such a number below the limit
AlignedFits(x, a, q, lim) == a = <<>> \/ (~BigLess(BigMul(q, a), x) /\ BigLess(BigMul(q, a), BigAdd(x, a)) /\ BigLess(BigMul(q, a), lim))
=============================================================================
