------------------------------ MODULE MCConversion ------------------------------
(* Model checking of Conversion: every converter between small layouts with up *)
(* to MaxMaps custom mappings, and then a machine that converts the points    *)
(* value by value, in any order, into a target with points around the range.  *)
EXTENDS Conversion, FiniteSetsExt, TLC
CONSTANTS Types, MaxFrom, MaxTo, MaxMaps
VARIABLES phase, maps, last, rng, todo, tgt
vars == <<from, to, map, phase, maps, last, rng, todo, tgt>>

Lists(names, k) == UNION { { f \in [1..m -> [n : names, t : Types]] : Cardinality({ f[i].n : i \in 1..m }) = m } : m \in 1..k }
V(t, i) == CASE IsFloat(Elem(t)) -> [k \in 1..Comps(t) |-> <<-3, 5, 601>>[((i + k) % 3) + 1]]
             [] OTHER -> [k \in 1..Comps(t) |-> <<0, 6, 400>>[((i + k) % 3) + 1]]
Src == [i \in 1..2 |-> [j \in DOMAIN from |-> V(from[j].t, i + j)]]
Pre == [i \in 1..3 |-> [j \in DOMAIN to |-> V(to[j].t, i + j + 2)]]

Init == /\ from \in Lists({"a", "b"}, MaxFrom) /\ to \in Lists({"a", "c"}, MaxTo)
        /\ CanCreate(from, to, TRUE)
        /\ map = [j \in DOMAIN to |-> [NoSource EXCEPT !.src = ByName(from, to[j].n)]]
        /\ phase = "map" /\ maps = 0 /\ last = 0 /\ rng = <<0, 0, 0>> /\ todo = {} /\ tgt = <<>>
Map(i, j, x, pre) ==
  /\ phase = "map" /\ maps < MaxMaps /\ CanMap(from[i], to[j], x, pre, IF pre THEN from[i].t ELSE to[j].t)
  /\ Mapped(from[i], to[j], x, pre) /\ maps' = maps + 1 /\ last' = j /\ UNCHANGED <<phase, rng, todo, tgt>>
Start(a, b, c) ==
  /\ phase = "map" /\ phase' = "run" /\ rng' = <<a, b, c>> /\ tgt' = Pre
  /\ todo' = { <<i, j>> : i \in (a + 1)..b, j \in { j \in DOMAIN to : map[j].src # 0 } }
  /\ UNCHANGED <<from, to, map, maps, last>>
Work(w) ==
  /\ phase = "run" /\ w \in todo /\ todo' = todo \ {w}
  /\ tgt' = [tgt EXCEPT ![rng[3] + (w[1] - rng[1])][w[2]] = Value(Src[w[1]], w[2])]
  /\ UNCHANGED <<from, to, map, phase, maps, last, rng>>
Next == \/ \E i \in DOMAIN from, j \in DOMAIN to, x \in {0, 1, 2}, pre \in BOOLEAN : (x = 0 => ~pre) /\ Map(i, j, x, pre)
        \/ \E a \in 0..2, b \in 0..2, c \in 0..3 : a <= b /\ c + (b - a) <= 3 /\ Start(a, b, c)
        \/ \E w \in todo : Work(w)
Spec == Init /\ [][Next]_vars

Result == phase = "run" /\ todo = {} => tgt = ConvertedInto(Src, rng[1], rng[2], Pre, rng[3])
Frame == phase = "run" => \A i \in DOMAIN Pre : (i <= rng[3] \/ i > rng[3] + (rng[2] - rng[1])) => tgt[i] = Pre[i]
NoSourceKeeps == phase = "run" => \A i \in DOMAIN Pre, j \in DOMAIN to : map[j].src = 0 => tgt[i][j] = Pre[i][j]
Unmapped == maps = 0 => /\ \A j \in DOMAIN to : map[j].x = 0
                        /\ (from = to => Converted(Src) = Src)
                        /\ \A i \in 1..2, j \in DOMAIN to : map[j].src = 0 => Converted(Src)[i][j] = ZeroValue(to[j].t)
Fits(h, t) == LET e == Elem(t) IN ConvComp("F64", e, h) = h
ValuesFit == \A j \in DOMAIN to : \A i \in DOMAIN Src : map[j].src # 0 =>
  LET f == from[map[j].src].t
      v == Src[i][map[j].src]
  IN (\A k \in DOMAIN v : Fits(v[k], to[j].t)) => Conv(to[j].t, f, Conv(f, to[j].t, v)) = v
\* a mapping only affects its target, and does so whatever was mapped there before
OnlyItsTarget == [][maps' # maps => \A j \in DOMAIN to : j # last' =>
  \A p \in Range(Src) : Point(p, ZeroPt)[j] = Point(p, ZeroPt)'[j]]_vars
TypeOK == \A j \in DOMAIN map : map[j].src \in 0..Len(from) /\ (map[j].src # 0 => Convertible(from[map[j].src].t, to[j].t))
=============================================================================
