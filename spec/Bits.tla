--------------------------------- MODULE Bits ---------------------------------
(* Machine words as bit sequences, least significant bit first.               *)
EXTENDS Integers, Sequences

Zeros(n) == [i \in 1..n |-> 0]
Ones(n)  == [i \in 1..n |-> 1]
IsZero(b) == \A i \in DOMAIN b : b[i] = 0
\* bit p (0-based); 0 outside the word
Bit(b, p) == IF p >= 0 /\ p < Len(b) THEN b[p + 1] ELSE 0

RECURSIVE ToNat(_)
ToNat(b) == IF b = <<>> THEN 0 ELSE b[1] + 2 * ToNat(Tail(b))
RECURSIVE FromNat(_, _)
FromNat(x, n) == IF n = 0 THEN <<>> ELSE <<x % 2>> \o FromNat(x \div 2, n - 1)

\* position (0-based) of the highest / lowest set bit; -1 if there is none
RECURSIVE HighFrom(_, _)
HighFrom(b, i) == IF i = 0 THEN -1 ELSE IF b[i] = 1 THEN i - 1 ELSE HighFrom(b, i - 1)
High(b) == HighFrom(b, Len(b))
RECURSIVE LowFrom(_, _)
LowFrom(b, i) == IF i > Len(b) THEN -1 ELSE IF b[i] = 1 THEN i - 1 ELSE LowFrom(b, i + 1)
Low(b) == LowFrom(b, 1)

\* two's complement negation and increment, modulo 2^n
Negated(b) == LET k == Low(b) IN [i \in DOMAIN b |-> IF k = -1 \/ i <= k + 1 THEN b[i] ELSE 1 - b[i]]
RECURSIVE LowZeroFrom(_, _)
LowZeroFrom(b, i) == IF i > Len(b) THEN -1 ELSE IF b[i] = 0 THEN i ELSE LowZeroFrom(b, i + 1)
Incremented(b) == LET k == LowZeroFrom(b, 1)
                  IN IF k = -1 THEN Zeros(Len(b)) ELSE [i \in DOMAIN b |-> IF i < k THEN 0 ELSE IF i = k THEN 1 ELSE b[i]]

\* unsigned comparison
RECURSIVE LessFrom(_, _, _)
LessFrom(a, b, i) == IF i = 0 THEN FALSE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LessFrom(a, b, i - 1)
Less(a, b) == LessFrom(a, b, Len(a))

Reversed(b) == [i \in DOMAIN b |-> b[Len(b) + 1 - i]]
\* bit i of the low 21 bits goes to position 3 i, everything else is 0
Spread3(b) == [i \in DOMAIN b |-> IF (i - 1) % 3 = 0 /\ (i - 1) \div 3 < 21 THEN Bit(b, (i - 1) \div 3) ELSE 0]
=============================================================================
