-------------------------------- MODULE GenTileset --------------------------------
(* Tiles with and without each of their parts, and documents of tiles with       *)
(* something wrong or unusual about one of their members.                        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
VARIABLE done
Init == done = FALSE
Next == FALSE /\ UNCHANGED done
Deep == IOEnv.TIER = "thorough"
Kinds == {"region", "box", "sphere"}
Opts == {"none", "region", "box", "sphere"}
Tiles == [what : {"build"}, err : {TRUE}, refine : {"none", "ADD", "REPLACE"}, vol : Opts, view : IF Deep THEN Opts ELSE {"none", "sphere"},
          content : {"no", "none", "region", "box", "sphere"}, transform : BOOLEAN, kids : IF Deep THEN {0, 1, 3} ELSE {0, 2}]
Hows == {"none", "drop", "null", "number", "string", "bool", "empty", "short", "long", "other", "extra", "two"}
Members == {"geometricError", "boundingVolume", "refine", "viewerRequestVolume", "content", "transform", "children", "uri", "region", "box", "sphere", "asset", "version", "tilesetVersion", "root", "properties", "minimum", "maximum"}
Docs == [what : {"tile", "root"}, how : Hows, member : Members, again : IF Deep THEN 1..4 ELSE {1}]
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Tiles) \o SetToSeq(Docs))
=============================================================================
