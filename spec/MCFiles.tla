--------------------------------- MODULE MCFiles ---------------------------------
(* Files by path with points that are numbers; a buffer to which files are     *)
(* appended, and what has been written where.                                  *)
EXTENDS Files
CONSTANTS Exts, MaxPoints, MaxSteps
VARIABLES fs, buf, last, steps
vars == <<fs, buf, last, steps>>
Paths == Exts \X {1, 2}
Here(p) == KindOf(p[1])
Fmts == {0, 1}
NewFile(p, m, k) == [kind |-> Here(p), fmt |-> m, lay |-> <<>>, pts |-> [i \in 1..k |-> 10 * steps + i]]
Init == fs = NoFiles /\ buf = <<>> /\ last = [op |-> "none", path |-> <<>>, ok |-> TRUE, got |-> <<>>] /\ steps = 0
Step(op, p, ok, got) == last' = [op |-> op, path |-> p, ok |-> ok, got |-> got] /\ steps' = steps + 1
Write == \E p \in Paths, k \in 0..MaxPoints : fs' = (IF Here(p) = "none" THEN fs ELSE Put(fs, p, NewFile(p, 0, k))) /\ Step("write", p, Here(p) # "none", <<>>) /\ UNCHANGED buf
Read == \E p \in Paths : LET can == Readable(fs, p, Here(p)) IN Step("read", p, can, IF can THEN fs[p].pts ELSE <<>>) /\ UNCHANGED <<fs, buf>>
Into == \E p \in Paths : LET can == Readable(fs, p, Here(p)) IN Step("into", p, can, buf) /\ buf' = (IF can THEN buf \o fs[p].pts ELSE buf) /\ UNCHANGED fs
Copy == \E p \in DOMAIN fs, q \in Paths : fs' = Put(fs, q, fs[p]) /\ Step("copy", q, TRUE, <<>>) /\ UNCHANGED buf
Remove == \E p \in DOMAIN fs : fs' = Drop(fs, p) /\ Step("remove", p, TRUE, <<>>) /\ UNCHANGED buf
Next == steps < MaxSteps /\ (Write \/ Read \/ Into \/ Copy \/ Remove)
Spec == Init /\ [][Next]_vars
\* a file that can be read is of the kind of its path; there is no file behind a path of no kind that was written
Sound == \A p \in Paths : Readable(fs, p, Here(p)) => fs[p].kind = Here(p) /\ Here(p) # "none"
ReadBack == (last.op = "read" /\ last.ok) => last.got = fs[last.path].pts
Appended == last.op = "into" => SubSeq(buf, 1, Len(last.got)) = last.got /\ (last.ok => SubSeq(buf, Len(last.got) + 1, Len(buf)) = fs[last.path].pts) /\ (~last.ok => buf = last.got)
Written == (last.op = "write" /\ last.ok) => last.path \in DOMAIN fs /\ fs[last.path].kind = Here(last.path)
\* only the path that is written to changes
Others == [][\A p \in Paths : (p \in DOMAIN fs /\ p # last'.path) => p \in DOMAIN fs' /\ fs'[p] = fs[p]]_vars
ASSUME Extensions == KindOf("LAZ") = "laz" /\ KindOf("") = "none" /\ KindOf("txt") = "none"
=============================================================================
