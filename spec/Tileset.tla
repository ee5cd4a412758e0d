---------------------------------- MODULE Tileset ----------------------------------
(* 3D Tiles tilesets: trees of tiles, the builder that makes them, and their     *)
(* JSON documents.  A document is the set of its leaves: the names (and, in      *)
(* lists, numbers) that lead to a leaf, its type and its value.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Nothing == [kind |-> "region", nums |-> <<"0.0", "0.0", "0.0", "0.0", "0.0", "0.0">>]
Default == [err |-> "0.0", refine |-> <<>>, vol |-> Nothing, view |-> <<>>, content |-> <<>>, transform |-> <<>>, children |-> <<>>]
Size(kind) == CASE kind = "region" -> 6 [] kind = "box" -> 12 [] kind = "sphere" -> 4 [] OTHER -> 0
Kinds == {"region", "box", "sphere"}
Refinements == {"ADD", "REPLACE"}
Leaf(p, t, v) == [p |-> p, t |-> t, v |-> v]
Nums(p, s) == { Leaf(p \o <<ToString(k - 1)>>, "number", s[k]) : k \in DOMAIN s }
Str(p, v) == { Leaf(p, "string", v) }
Num(p, v) == { Leaf(p, "number", v) }
Opt(s, F(_)) == IF s = <<>> THEN {} ELSE F(s[1])
VolumeJson(p, v) == Nums(p \o <<v.kind>>, v.nums)
ContentJson(p, c) == Str(p \o <<"uri">>, c.uri) \cup Opt(c.vol, LAMBDA v : VolumeJson(p \o <<"boundingVolume">>, v))
\* the document of a tile: what the tile does not have is not there
RECURSIVE Json(_, _)
Json(p, t) ==
  Num(p \o <<"geometricError">>, t.err) \cup VolumeJson(p \o <<"boundingVolume">>, t.vol)
  \cup Opt(t.refine, LAMBDA v : Str(p \o <<"refine">>, v))
  \cup Opt(t.view, LAMBDA v : VolumeJson(p \o <<"viewerRequestVolume">>, v))
  \cup Opt(t.content, LAMBDA v : ContentJson(p \o <<"content">>, v))
  \cup Opt(t.transform, LAMBDA v : Nums(p \o <<"transform">>, v))
  \cup UNION { Json(p \o <<"children", ToString(k - 1)>>, t.children[k]) : k \in DOMAIN t.children }
\* the document of a whole tileset
RootJson(r) ==
  Str(<<"asset", "version">>, r.version) \cup Opt(r.tilesetVersion, LAMBDA v : Str(<<"asset", "tilesetVersion">>, v))
  \cup Num(<<"geometricError">>, r.err) \cup Json(<<"root">>, r.tile)
  \cup Opt(r.properties, LAMBDA ps : IF ps = <<>> THEN { Leaf(<<"properties">>, "{}", "") }
       ELSE UNION { Num(<<"properties", ps[k].name, "minimum">>, ps[k].min) \cup Num(<<"properties", ps[k].name, "maximum">>, ps[k].max) : k \in DOMAIN ps })
\* reading a document
Under(D, p) == { e \in D : Len(e.p) >= Len(p) /\ SubSeq(e.p, 1, Len(p)) = p }
At(D, p) == { e \in D : e.p = p }
Names(D, p) == { e.p[Len(p) + 1] : e \in { e \in Under(D, p) : Len(e.p) > Len(p) } }
There(D, p) == Under(D, p) # {}
Null(D, p) == \E e \in At(D, p) : e.t = "null"
Is(D, p, t) == Under(D, p) = At(D, p) /\ \E e \in At(D, p) : e.t = t
Val(D, p) == (CHOOSE e \in At(D, p) : TRUE).v
\* lists: the leaves below are numbered
IsList(D, p) == Is(D, p, "[]") \/ (At(D, p) = {} /\ Names(D, p) = { ToString(k) : k \in 0..Cardinality(Names(D, p)) - 1 })
Count(D, p) == Cardinality(Names(D, p))
IsNums(D, p, n) == Count(D, p) = n /\ \A k \in 0..n - 1 : Is(D, p \o <<ToString(k)>>, "number")
NumsAt(D, p, n) == [k \in 1..n |-> Val(D, p \o <<ToString(k - 1)>>)]
\* a member that may be left out, also by being null
Maybe(D, p, F(_)) == ~There(D, p) \/ Null(D, p) \/ F(p)
ReadMaybe(D, p, F(_)) == IF ~There(D, p) \/ Null(D, p) THEN <<>> ELSE << F(p) >>
IsVolume(D, p) == Cardinality(Names(D, p)) = 1 /\ At(D, p) = {} /\ \A k \in Names(D, p) : k \in Kinds /\ IsNums(D, p \o <<k>>, Size(k))
ReadVolume(D, p) == LET k == CHOOSE k \in Names(D, p) : TRUE IN [kind |-> k, nums |-> NumsAt(D, p \o <<k>>, Size(k))]
IsContent(D, p) == At(D, p) = {} /\ Is(D, p \o <<"uri">>, "string") /\ Maybe(D, p \o <<"boundingVolume">>, LAMBDA q : IsVolume(D, q))
ReadContent(D, p) == [uri |-> Val(D, p \o <<"uri">>), vol |-> ReadMaybe(D, p \o <<"boundingVolume">>, LAMBDA q : ReadVolume(D, q))]
RECURSIVE IsTile(_, _)
IsTile(D, p) ==
  /\ At(D, p) = {} /\ There(D, p)
  /\ Is(D, p \o <<"geometricError">>, "number")
  /\ IsVolume(D, p \o <<"boundingVolume">>)
  /\ Maybe(D, p \o <<"refine">>, LAMBDA q : Is(D, q, "string") /\ Val(D, q) \in Refinements)
  /\ Maybe(D, p \o <<"viewerRequestVolume">>, LAMBDA q : IsVolume(D, q))
  /\ Maybe(D, p \o <<"content">>, LAMBDA q : IsContent(D, q))
  /\ Maybe(D, p \o <<"transform">>, LAMBDA q : IsNums(D, q, 16))
  /\ There(D, p \o <<"children">>) =>
       /\ IsList(D, p \o <<"children">>)
       /\ \A k \in Names(D, p \o <<"children">>) : IsTile(D, p \o <<"children", k>>)
RECURSIVE ReadTile(_, _)
ReadTile(D, p) ==
  [err |-> Val(D, p \o <<"geometricError">>), vol |-> ReadVolume(D, p \o <<"boundingVolume">>),
   refine |-> ReadMaybe(D, p \o <<"refine">>, LAMBDA q : Val(D, q)),
   view |-> ReadMaybe(D, p \o <<"viewerRequestVolume">>, LAMBDA q : ReadVolume(D, q)),
   content |-> ReadMaybe(D, p \o <<"content">>, LAMBDA q : ReadContent(D, q)),
   transform |-> ReadMaybe(D, p \o <<"transform">>, LAMBDA q : NumsAt(D, q, 16)),
   children |-> [k \in 1..Count(D, p \o <<"children">>) |-> ReadTile(D, p \o <<"children", ToString(k - 1)>>)]]
IsProperty(D, p) == At(D, p) = {} /\ Is(D, p \o <<"minimum">>, "number") /\ Is(D, p \o <<"maximum">>, "number")
IsRoot(D) ==
  /\ Is(D, <<"asset", "version">>, "string") /\ Maybe(D, <<"asset", "tilesetVersion">>, LAMBDA q : Is(D, q, "string"))
  /\ Is(D, <<"geometricError">>, "number") /\ IsTile(D, <<"root">>)
  /\ Maybe(D, <<"properties">>, LAMBDA q : Is(D, q, "{}") \/ (At(D, q) = {} /\ \A n \in Names(D, q) : IsProperty(D, q \o <<n>>)))
\* the properties of a tileset have no order
SameRoot(D, r) ==
  /\ r.version = Val(D, <<"asset", "version">>) /\ r.tilesetVersion = ReadMaybe(D, <<"asset", "tilesetVersion">>, LAMBDA q : Val(D, q))
  /\ r.err = Val(D, <<"geometricError">>) /\ r.tile = ReadTile(D, <<"root">>)
  /\ LET none == ~There(D, <<"properties">>) \/ Null(D, <<"properties">>) IN
     IF none THEN r.properties = <<>>
     ELSE /\ Len(r.properties) = 1
          /\ Len(r.properties[1]) = Cardinality(Names(D, <<"properties">>))
          /\ { r.properties[1][k] : k \in DOMAIN r.properties[1] } =
             { [name |-> n, min |-> Val(D, <<"properties", n, "minimum">>), max |-> Val(D, <<"properties", n, "maximum">>)] : n \in Names(D, <<"properties">>) }
\* the builder
Refused(op) == op.f = "err" /\ op.negative
Apply(t, op, made) ==
  CASE op.f = "err" -> [t EXCEPT !.err = op.v]
    [] op.f = "refine" -> [t EXCEPT !.refine = <<op.v>>]
    [] op.f = "vol" -> [t EXCEPT !.vol = op.v]
    [] op.f = "view" -> [t EXCEPT !.view = <<op.v>>]
    [] op.f = "content" -> [t EXCEPT !.content = <<op.v>>]
    [] op.f = "transform" -> [t EXCEPT !.transform = <<op.v>>]
    [] op.f = "child" -> [t EXCEPT !.children = Append(@, made[op.v[1]])]
    [] op.f = "children" -> [t EXCEPT !.children = @ \o [k \in DOMAIN op.v |-> made[op.v[k]]]]
=============================================================================
