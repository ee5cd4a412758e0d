-------------------------------- MODULE MCAscii --------------------------------
(* A file of text that is written in batches and read in steps: what is read  *)
(* is what was written.  In the initial states: the number texts demanded are *)
(* the only ones, and splitting undoes joining.                               *)
EXTENDS Ascii, Casts, TLC
CONSTANTS MaxPoints, MaxPlaces, Whole
VARIABLES fmt, prec, file, written, pos, got
vars == <<fmt, prec, file, written, pos, got>>
Delim == <<44, 32>>

\* n/8 as a float, byte by byte
F8(n) == LET b == IntToFloat("I32", "F64", IF n < 0 THEN Negated(FromNat(-n, 32)) ELSE FromNat(n, 32))
             e == Exp("F64", b)
             c == IF n = 0 THEN b ELSE Pack("F64", Sign(b), e - 3, Mant("F64", b))
         IN [k \in 1..8 |-> ToNat(SubSeq(c, 8 * k - 7, 8 * k))]
\* the decimal with p places and digits d
Pad(t, n) == IF Len(t) >= n THEN t ELSE [i \in 1..(n - Len(t)) |-> 48] \o t
Text(d, p) == LET a == IF d < 0 THEN -d ELSE d
                  t == Pad(NatText(a), p + 1)
              IN (IF d < 0 THEN <<Minus>> ELSE <<>>) \o (IF p = 0 THEN t ELSE SubSeq(t, 1, Len(t) - p) \o <<Dot>> \o SubSeq(t, Len(t) - p + 1, Len(t)))
Ten(p) == 10 ^ p
AbsI(n) == IF n < 0 THEN -n ELSE n
\* exactly the decimals at most half a unit away are roundings
Numbers == \A n \in -Whole..Whole : \A p \in 0..MaxPlaces :
  LET q == (n * Ten(p)) \div 8 IN \A d \in (q - 2)..(q + 2) : RoundedTo(Text(d, p), F8(n), p) <=> 2 * AbsI(8 * d - n * Ten(p)) <= 8
\* a text with all its digits is read as exactly the number
Reading == \A n \in -Whole..Whole : LET t == Text(n * 125, 3) IN
  /\ NextTo(t, F8(n)) /\ WholeOf(Text(n, 0)) = n
  /\ \A m \in (n - 2)..(n + 2) : NextTo(t, F8(m)) <=> m = n
  /\ LET up == [F8(n) EXCEPT ![1] = 1] IN ~NextTo(t, up) \/ n = 0
Texts == { <<>>, <<49>>, <<32>>, <<44>>, <<49, 32>>, <<32, 44>>, <<44, 49>> }
Splits == \A a, b, c \in Texts : \A d \in {<<59>>, <<44, 32>>} :
  (\A t \in {a, b, c} : \A i \in DOMAIN t : t[i] \notin {d[k] : k \in DOMAIN d}) => Columns(Joined(<<a, b, c>>, d), d) = <<a, b, c>>
ASSUME Numbers /\ Reading /\ Splits

\* the machine
Fmts == {<<"x">>, <<"i", "s">>, <<"e", "x">>, <<"a", "i">>}
Vals(l) == CASE Kind(l) = "f64" -> {-9, 4, 12} [] Kind(l) = "skip" -> {0} [] Kind(l) = "bool" -> {0, 1, 7} [] Kind(l) = "i8" -> {-128, 5} [] OTHER -> {0, 65535}
\* the value as it is recorded, and a column that shows it
Val(l, v) == IF Kind(l) = "f64" THEN F8(v) ELSE v
RoundDown(v, p) == Text((v * Ten(p) + 4) \div 8, p)
Column(l, v, p) == CASE Kind(l) = "f64" -> RoundDown(v, p) [] Kind(l) = "skip" -> <<>> [] Kind(l) = "bool" -> WholeText(IF v > 0 THEN 1 ELSE 0) [] OTHER -> WholeText(v)
LineFor(pt) == Joined([i \in DOMAIN fmt |-> Column(fmt[i], pt[i], prec)], Delim)
Init == fmt \in Fmts /\ prec \in {0, 3} /\ file = <<>> /\ written = <<>> /\ pos = 0 /\ got = <<>>
Points1 == { pt \in [DOMAIN fmt -> {-128, -9, 0, 1, 4, 5, 7, 12, 65535}] : \A i \in DOMAIN fmt : pt[i] \in Vals(fmt[i]) }
Write == /\ Len(file) < MaxPoints /\ \E pt \in Points1 : file' = Append(file, LineFor(pt)) /\ written' = Append(written, pt)
         /\ UNCHANGED <<fmt, prec, pos, got>>
Lower(a, b) == IF a < b THEN a ELSE b
Shown(l, t) == IF Kind(l) = "skip" THEN 0 ELSE IF Kind(l) = "f64" THEN t ELSE WholeOf(t)
Read == /\ \E count \in 0..(MaxPoints + 1) : LET n == Lower(count, Len(file) - pos) IN
             /\ pos' = pos + n
             /\ got' = got \o [k \in 1..n |-> LET cs == Columns(file[pos + k], Delim) IN [i \in DOMAIN fmt |-> Shown(fmt[i], cs[i])]]
        /\ UNCHANGED <<fmt, prec, file, written>>
Next == Write \/ Read
Spec == Init /\ [][Next]_vars

Position == pos = Len(got) /\ pos <= Len(file)
\* every point is on a line that can be read, and comes out at its place
Lines == \A k \in DOMAIN file : /\ LineOf(fmt, Delim, prec, [i \in DOMAIN fmt |-> Val(fmt[i], written[k][i])], file[k])
                                /\ ReadableLine(fmt, Columns(file[k], Delim))
RoundTrip == \A k \in DOMAIN got : \A i \in DOMAIN fmt :
  CASE Kind(fmt[i]) = "skip" -> TRUE
    [] Kind(fmt[i]) = "f64" -> RoundedTo(got[k][i], F8(written[k][i]), prec) /\ (prec = 3 => NextTo(got[k][i], F8(written[k][i])))
    [] Kind(fmt[i]) = "bool" -> got[k][i] = (IF written[k][i] > 0 THEN 1 ELSE 0)
    [] OTHER -> got[k][i] = written[k][i]
=============================================================================
