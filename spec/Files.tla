---------------------------------- MODULE Files ----------------------------------
(* Point cloud files on disk by their paths: the extension of a path decides   *)
(* what kind of file is written and read.  fs has the files that exist: the    *)
(* kind, the format, the attributes and the points of the last one written.    *)
EXTENDS Integers, Sequences, FiniteSets, Window, TLC
L == INSTANCE LasFile
P == INSTANCE Pnts
\* extensions in any case; a name that only begins with a dot, or has none, has no extension
KindOf(ext) == CASE ext \in {"las", "LAS", "Las", "lAS"} -> "las"
                 [] ext \in {"laz", "LAZ", "Laz", "laZ"} -> "laz"
                 [] ext \in {"pnts", "PNTS", "Pnts", "pnTS"} -> "pnts"
                 [] OTHER -> "none"
IsLas(k) == k \in {"las", "laz"}
Names(ds) == { ds[k].n : k \in DOMAIN ds }
NoFiles == [x \in {} |-> 0]
Put(fs, path, f) == [x \in DOMAIN fs \cup {path} |-> IF x = path THEN f ELSE fs[x]]
Drop(fs, path) == [x \in DOMAIN fs \ {path} |-> fs[x]]
\* what can be had of the file at a path: a file whose kind is not the one of its path is refused
Readable(fs, path, kind) == path \in DOMAIN fs /\ kind # "none" /\ fs[path].kind = kind
\* the attributes of a file, in order if it is a LAS file
Layout(f) == IF IsLas(f.kind) THEN L!UserDefs(f.fmt, <<>>) ELSE P!Semantics
HasLayout(f, ds) ==
  IF IsLas(f.kind) THEN ds = L!UserDefs(f.fmt, <<>>)
  ELSE LET known == { k \in DOMAIN f.lay : P!SemOf(f.lay[k].n) # 0 } IN
       Len(ds) = Cardinality(known) /\ { ds[k] : k \in DOMAIN ds } = { [n |-> f.lay[k].n, d |-> P!Prim(P!Semantics[P!SemOf(f.lay[k].n)][3])] : k \in known }
\* a value of an attribute of the i-th point; it is zero if the file has the attribute and the points had not
InFile(f, n) == IF IsLas(f.kind) THEN n \in Names(L!UserDefs(f.fmt, <<>>)) ELSE P!SemOf(n) # 0
Source(f, n) == L!IndexIn(f.lay, n)
ReadAs(f, i, def, v) ==
  LET k == Source(f, def.n) IN
  IF ~InFile(f, def.n) THEN TRUE
  ELSE IF k = 0 THEN IsLas(f.kind) => \A b \in DOMAIN v : v[b] = 0
  ELSE P!SameValue(f.lay[k].d, f.pts[i][k], def.d, v)
PointsRead(f, at, ds, got) == \A i \in DOMAIN got : \A k \in DOMAIN ds : ReadAs(f, at + i, ds[k], got[i][k])
\* the format of a LAS file is the best one for the attributes
RightFormat(f) == IsLas(f.kind) => L!Best(Names(f.lay), f.fmt)
=============================================================================
