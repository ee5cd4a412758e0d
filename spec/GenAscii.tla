-------------------------------- MODULE GenAscii --------------------------------
(* Every format of up to two (three) columns to be written and read, every    *)
(* literal with columns that can and cannot be read, lines with too few and   *)
(* with more columns, all ways of reading a few lines in steps.               *)
EXTENDS Ascii, Json, IOUtils, TLC, SequencesExt
VARIABLE done
Init == done = FALSE
Next == FALSE /\ UNCHANGED done
Deep == IOEnv.TIER = "thorough"
L == { Lits[i] : i \in DOMAIN Lits }
One == { <<a>> : a \in L }
Two == { <<a, b>> : a, b \in L }
Three == IF Deep THEN { <<a, b, c>> : a, b, c \in {"s", "x", "z", "R", "B", "a", "e", "u"} } ELSE {}
W(f, ns) == [role |-> "w", fmt |-> f, ns |-> ns]
Wr == { W(f, <<1, 2>>) : f \in One \cup (IF Deep THEN Two ELSE {}) } \cup { W(f, <<2>>) : f \in Two \cup Three } \cup { W(f, <<1>>) : f \in { <<a>> : a \in {"Q", "X", "b", " "} } }
Toks(l) == CASE Kind(l) = "skip" -> {"", "zz"}
             [] Kind(l) = "f64" -> {"0", "-0.5", "123456.789", "0.1", "", "abc", "1.2.3", "--1"}
             [] Kind(l) = "u16" -> {"0", "255", "256", "65535", "65536", "-1", "1.5", "", "x"}
             [] Kind(l) = "u8" -> {"0", "127", "128", "255", "256", "-1", "1.5", ""}
             [] Kind(l) = "bool" -> {"0", "1", "2", "-1", "", "true"}
             [] OTHER -> {"-128", "127", "0", "128", "-129", "1.0", ""}
R(f, d, lines, ns, last) == [role |-> "r", fmt |-> f, delim |-> d, lines |-> lines, ns |-> ns, last |-> last]
Good(l) == CASE Kind(l) = "f64" -> "-0.5" [] Kind(l) = "skip" -> "zz" [] OTHER -> "1"
Singles == { R(<<l>>, d, <<<<t>>>>, <<1, 1>>, TRUE) : l \in L, d \in {",", ", "}, t \in UNION { Toks(x) : x \in L } }
\* the column at its place among others, and lines that are too short or too long
Places3 == UNION { { R(<<a, l, b>>, ";", <<<<Good(a), t, Good(b)>>>>, <<1>>, TRUE) : t \in Toks(l) } : a \in {"s", "y"}, l \in L, b \in {"G", "s"} }
Widths == { R(<<a, b>>, ",", <<[i \in 1..k |-> IF i = 1 THEN Good(a) ELSE IF i = 2 THEN Good(b) ELSE "9"]>>, <<1>>, last) : a, b \in L, k \in 1..4, last \in BOOLEAN }
\* reading in steps: all sequences of counts
Ints == <<"7", "8", "9">>
Steps == { R(<<"i">>, ",", [i \in 1..n |-> <<Ints[i]>>], <<a, b, c>>, last) : n \in 0..3, a \in 0..4, b \in 0..4, c \in {0, 2, 5}, last \in BOOLEAN }
\* a bad line among good ones
Bad == { R(<<"i">>, ",", [i \in 1..3 |-> IF i = k THEN <<"bad">> ELSE <<Ints[i]>>], <<a, b>>, TRUE) : k \in 1..3, a \in 0..3, b \in 0..3 }
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Wr) \o SetToSeq(Singles) \o SetToSeq(Places3) \o SetToSeq(Widths) \o SetToSeq(Steps) \o SetToSeq(Bad))
=============================================================================
