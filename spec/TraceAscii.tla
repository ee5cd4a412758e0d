------------------------------ MODULE TraceAscii ------------------------------
(* Histories of writers and readers of text files.                            *)
EXTENDS Ascii, FiniteSets, Json, TLC, TLCExt, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
Start == atoi(IOEnv.START)
VARIABLES l, fmt, delim, prec,
          lines,   \* what is in the file to be read
          pos      \* how many lines were read; -1: the reader has failed
vars == <<l, fmt, delim, prec, lines, pos>>
Init == l = Start /\ fmt = <<>> /\ delim = <<>> /\ prec = 0 /\ lines = <<>> /\ pos = 0
ev == Log[l]
Is(e) == l <= Len(Log) /\ ev.e = e /\ l' = l + 1
Same == UNCHANGED <<fmt, delim, prec, lines, pos>>

TNew == Is("new") /\ fmt' = ev.fmt /\ delim' = ev.delim /\ prec' = ev.prec /\ lines' = ev.lines /\ pos' = 0
  /\ ev.ok = ValidFormat(ev.fmt)
  /\ (ev.ok /\ ev.role = "r" => /\ Len(ev.attrs) = Cardinality(AttrsOf(ev.fmt))
                                /\ { ev.attrs[i] : i \in DOMAIN ev.attrs } = AttrsOf(ev.fmt))
\* all points become lines, in order; points without the attributes of the format are refused
TWrite == Is("write") /\ Same /\
  (IF ev.has THEN ev.ok /\ ev.whole /\ Len(ev.lines) = Len(ev.pts) /\ \A i \in DOMAIN ev.pts : LineOf(fmt, delim, prec, ev.pts[i], ev.lines[i])
   ELSE ~ev.ok) = TRUE
Min(a, b) == IF a < b THEN a ELSE b
Here(k) == Columns(lines[pos + k], delim)
TRead == Is("read") /\ UNCHANGED <<fmt, delim, prec, lines>> /\
  LET n == Min(ev.count, Len(lines) - pos)
      good == \A k \in 1..n : ReadableLine(fmt, Here(k))
  IN /\ pos >= 0 /\ pos' = (IF good THEN pos + n ELSE -1)
     /\ (IF good THEN ev.ok /\ ev.n = n /\ Len(ev.pts) = n /\ ev.rest /\ \A k \in 1..n : PointOf(fmt, Here(k), ev.pts[k]) ELSE ~ev.ok) = TRUE
Next == TNew \/ TWrite \/ TRead
Spec == Init /\ [][Next]_vars
TypeOK == TRUE
Accepted == TLCGet("stats").diameter - 1 = Len(Log) - Start + 1
=============================================================================
