--------------------------------- MODULE Ascii ---------------------------------
(* Point clouds as lines of text: one point per line, one column for each     *)
(* literal of the format, columns separated by the delimiter.                 *)
EXTENDS Decimal
Lits == <<"s", "x", "y", "z", "i", "r", "n", "c", "t", "u", "p", "R", "G", "B", "e", "d", "a", "I">>
IsLit(l) == \E i \in DOMAIN Lits : Lits[i] = l
Kind(l) == CASE l = "s" -> "skip" [] l \in {"x", "y", "z", "t"} -> "f64" [] l \in {"i", "p", "R", "G", "B", "I"} -> "u16"
             [] l \in {"r", "n", "c", "u"} -> "u8" [] l \in {"e", "d"} -> "bool" [] OTHER -> "i8"
\* the attribute that a column belongs to
AttrOf(l) == CASE l \in {"x", "y", "z"} -> "POSITION_3D" [] l = "i" -> "INTENSITY" [] l = "r" -> "RETURN_NUMBER" [] l = "n" -> "NUMBER_OF_RETURNS"
               [] l = "c" -> "CLASSIFICATION" [] l = "u" -> "USER_DATA" [] l \in {"R", "G", "B"} -> "COLOR_RGB" [] l = "t" -> "GPS_TIME"
               [] l = "p" -> "POINT_SOURCE_ID" [] l = "e" -> "EDGE_OF_FLIGHT_LINE" [] l = "d" -> "SCAN_DIRECTION_FLAG" [] l = "a" -> "SCAN_ANGLE_RANK"
               [] l = "I" -> "NIR" [] OTHER -> ""
AttrsOf(fmt) == { AttrOf(fmt[i]) : i \in { k \in DOMAIN fmt : fmt[k] # "s" } }
ValidFormat(fmt) == \A i \in DOMAIN fmt : IsLit(fmt[i])

At(s, d, i) == i + Len(d) - 1 <= Len(s) /\ \A k \in DOMAIN d : s[i + k - 1] = d[k]
RECURSIVE SplitFrom(_, _, _, _)
SplitFrom(s, d, a, i) == IF i + Len(d) - 1 > Len(s) THEN <<SubSeq(s, a, Len(s))>>
                         ELSE IF At(s, d, i) THEN <<SubSeq(s, a, i - 1)>> \o SplitFrom(s, d, i + Len(d), i + Len(d))
                         ELSE SplitFrom(s, d, a, i + 1)
\* the columns of a line
Columns(s, d) == SplitFrom(s, d, 1, 1)
RECURSIVE Joined(_, _)
Joined(cs, d) == IF cs = <<>> THEN <<>> ELSE IF Len(cs) = 1 THEN cs[1] ELSE cs[1] \o d \o Joined(Tail(cs), d)

\* what a column with value v reads
Writes(l, v, text, prec) ==
  CASE Kind(l) = "skip" -> text = <<>>
    [] Kind(l) = "f64" -> RoundedTo(text, v, prec)
    [] Kind(l) = "bool" -> text = WholeText(IF v > 0 THEN 1 ELSE 0)
    [] OTHER -> text = WholeText(v)
\* a point (its value for every column) is written as this line
LineOf(fmt, d, prec, pt, line) == LET cs == Columns(line, d) IN
  Len(cs) = Len(fmt) /\ \A i \in DOMAIN fmt : Writes(fmt[i], pt[i], cs[i], prec)

Readable(l, t) ==
  CASE Kind(l) = "skip" -> TRUE
    [] Kind(l) = "f64" -> IsDecimal(t)
    [] Kind(l) = "u16" -> WholeIn(t, 0, 65535)
    [] Kind(l) = "u8" -> WholeIn(t, 0, 255)
    [] Kind(l) = "bool" -> WholeIn(t, 0, 1)
    [] OTHER -> WholeIn(t, -128, 127)
ReadableLine(fmt, cs) == Len(cs) >= Len(fmt) /\ \A i \in DOMAIN fmt : Readable(fmt[i], cs[i])
ValueIs(l, t, v) == IF Kind(l) = "f64" THEN NextTo(t, v) ELSE v = WholeOf(t)
\* v: the value that the point has for every column of the format (<<>>: it has no such attribute); of columns for the same value the last one counts
PointOf(fmt, cs, v) == \A i \in DOMAIN fmt :
  (fmt[i] = "s" \/ v[i] = <<>> \/ (\E k \in (i + 1)..Len(fmt) : fmt[k] = fmt[i])) \/ ValueIs(fmt[i], cs[i], v[i][1])
=============================================================================
