--------------------------------- MODULE MCTileset ---------------------------------
(* Builders of tiles with small numbers, and what becomes of their documents.    *)
EXTENDS Tileset
CONSTANTS MaxSteps, MaxTiles
VARIABLES cur, made, steps
vars == <<cur, made, steps>>
V(kind, x) == [kind |-> kind, nums |-> [k \in 1..Size(kind) |-> IF k = 1 THEN x ELSE "1.0"]]
Vols == { V(k, x) : k \in Kinds, x \in {"1.0", "2.0"} }
Ops == { [f |-> "err", v |-> x, negative |-> n] : x \in {"3.0"}, n \in BOOLEAN } \cup { [f |-> "refine", v |-> x] : x \in Refinements }
  \cup { [f |-> "vol", v |-> V(k, "1.0")] : k \in Kinds } \cup { [f |-> "view", v |-> V("box", "2.0")] }
  \cup { [f |-> "content", v |-> [uri |-> "a", vol |-> w]] : w \in {<<>>, <<V("sphere", "1.0")>>} } \cup { [f |-> "transform", v |-> [k \in 1..16 |-> ToString(k)]] }
  \cup { [f |-> "child", v |-> <<k>>] : k \in DOMAIN made } \cup { [f |-> "children", v |-> v] : v \in { w \in {<<>>, <<1, 1>>, <<1, 2>>} : \A k \in DOMAIN w : w[k] \in DOMAIN made } }
Init == cur = Default /\ made = <<>> /\ steps = 0
Set == \E op \in Ops : cur' = (IF Refused(op) THEN Default ELSE Apply(cur, op, made)) /\ UNCHANGED made
Done == Len(made) < MaxTiles /\ made' = Append(made, cur) /\ cur' = Default
Next == steps < MaxSteps /\ steps' = steps + 1 /\ (Set \/ Done)
Spec == Init /\ [][Next]_vars
D == Json(<<>>, cur)
\* every tile has a document that is one, and is what is read from it
Readable == IsTile(D, <<>>)
ReadBack == ReadTile(D, <<>>) = cur
\* what a tile does not have may also be null, and members nobody knows are passed over
NullsToo == LET E == D \cup { Leaf(<<n>>, "null", "") : n \in {"refine", "viewerRequestVolume", "content", "transform"} \ Names(D, <<>>) } \cup Str(<<"extras", "note">>, "x") IN IsTile(E, <<>>) /\ ReadTile(E, <<>>) = cur
\* it does not without its error or volume, nor with one number too few
Needed == /\ ~IsTile({ e \in D : e.p # <<"geometricError">> }, <<>>)
          /\ ~IsTile({ e \in D : e.p[1] # "boundingVolume" }, <<>>)
          /\ \A v \in {"refine", "transform"} : There(D, <<v>>) => ~IsTile({ e \in D : e.p[1] # v } \cup Num(<<v>>, "5"), <<>>)
          /\ ~IsTile(D \ { CHOOSE e \in D : e.p[1] = "boundingVolume" }, <<>>)
Roots == { [version |-> "1.0", tilesetVersion |-> tv, err |-> "1.0", tile |-> cur, properties |-> ps] :
           tv \in {<<>>, <<"7">>}, ps \in { <<>>, << <<>> >>, << << [name |-> "a", min |-> "0.0", max |-> "1.0"], [name |-> "b", min |-> "2.0", max |-> "1.0"] >> >> } }
Whole == \A r \in Roots : IsRoot(RootJson(r)) /\ SameRoot(RootJson(r), r)
\* a tile that is done does not change
Kept == [][\A k \in DOMAIN made : made'[k] = made[k]]_vars
=============================================================================
