--------------------------------- MODULE MCMath ---------------------------------
(* Bit operations, alignment and smaller / larger values: what is demanded of *)
(* the results has exactly one answer, and the answers have the algebra one   *)
(* expects.  x and y walk through small words.                                *)
EXTENDS Casts, BigNat, TLC
CONSTANT Top
VARIABLES x, y
vars == <<x, y>>
Init == x = 0 /\ y \in 0..Top
Next == x < Top /\ x' = x + 1 /\ y' = y
Spec == Init /\ [][Next]_vars

Big(n) == Trim(<<n % Base, (n \div Base) % Base>>)
Up(n, a) == IF a = 0 THEN n ELSE ((n + a - 1) \div a) * a
\* x aligned to y: the definition allows this number and no other one
Align == \A r \in 0..(Top + 40) : (\E q \in 0..(Top + 1) : IsAligned(Big(x), Big(y), Big(q), Big(r))) <=> r = Up(x, y)
AlignLaws == y > 0 => /\ Up(Up(x, y), y) = Up(x, y) /\ Up(x, y) % y = 0 /\ Up(x, y) - x \in 0..(y - 1)
                      /\ AlignedFits(Big(x), Big(y), Big(Up(x, y) \div y), Big(Up(x, y) + 1)) /\ ~AlignedFits(Big(x), Big(y), Big(Up(x, y) \div y), Big(Up(x, y)))
W(n) == FromNat(n, 8) \o FromNat((n * 7) % 256, 8) \o FromNat(n \div 3, 8) \o Zeros(32) \o FromNat(n, 8)
Or(a, b) == [i \in DOMAIN a |-> IF a[i] = 1 \/ b[i] = 1 THEN 1 ELSE 0]
Shl(a, k) == [i \in DOMAIN a |-> Bit(a, i - 1 - k)]
Weight(a) == Cardinality({ i \in DOMAIN a : a[i] = 1 })
\* three spread words do not get into each other's way, and a word can be read back
Morton == LET s == Spread3(W(x)) t == Spread3(W(y)) m == Or(s, Shl(t, 1)) IN
  /\ \A i \in 1..64 : s[i] = 1 => (i - 1) % 3 = 0
  /\ Weight(m) = Weight(s) + Weight(t)
  /\ [i \in 1..21 |-> m[3 * (i - 1) + 1]] = SubSeq(W(x), 1, 21) /\ [i \in 1..21 |-> m[3 * (i - 1) + 2]] = SubSeq(W(y), 1, 21)
  /\ Weight(s) = Weight(SubSeq(W(x), 1, 21))
Mirror == /\ Reversed(Reversed(W(x))) = W(x) /\ Weight(Reversed(W(x))) = Weight(W(x))
          /\ Reversed(Or(W(x), W(y))) = Or(Reversed(W(x)), Reversed(W(y)))
          /\ \A i \in 0..63 : Bit(Reversed(W(x)), i) = Bit(W(x), 63 - i)
\* smaller and larger values
Vals(t) == IF t = "F32" THEN { FromNat(x % 256, 24) \o FromNat((y * 3 + x) % 256, 8), FromNat(y % 256, 24) \o FromNat((x * 5) % 256, 8) } ELSE { FromNat(x % 256, 8), FromNat(y % 256, 8) }
Lattice == \A t \in {"U8", "I8", "F32"} : \A a, b \in { v \in Vals(t) : ~IsNaN(t, v) } :
  /\ ~(ValueLess(t, a, b) /\ ValueLess(t, b, a))
  /\ \E r \in {a, b} : IsInf(t, a, b, r) /\ \E s \in {a, b} : IsSup(t, a, b, s)
  /\ \A r \in {a, b} : (IsInf(t, a, b, r) <=> IsInf(t, b, a, r)) /\ (IsInf(t, a, b, r) /\ IsSup(t, a, b, r) => ~ValueLess(t, a, b) /\ ~ValueLess(t, b, a))
  /\ IsInf(t, a, a, a) /\ IsSup(t, a, a, a)
  /\ (t # "F32" => \A r, s \in {a, b} : IsInf(t, a, b, r) /\ IsInf(t, a, b, s) => r = s)
=============================================================================
