------------------------------- MODULE GenBuffer -------------------------------
(* Behaviours of Buffer for the code: for every property a set of histories   *)
(* that covers its calls on small buffers completely.  A case is an initial   *)
(* buffer and either a sequence of calls (seq) or a set of calls that leave   *)
(* the length alone and may be made in any order (tour).                      *)
EXTENDS BufferOps, Json, IOUtils, TLC

VARIABLE done
Init == done = FALSE
Next == FALSE /\ UNCHANGED done

Prop == IOEnv.PROP
Deep == IOEnv.TIER = "thorough"

Case(k, ps, ops) == [na |-> k, pts |-> ps, tour |-> SetToSeq(ops)]
Seq3(k, n, d) ==
  LET g1 == Grow(n, k, 20, 3) g2 == Grow(n, k, 40, 3) g3 == Grow(n, k, 60, 4)
      all == IF d = 2 THEN { <<x, y>> : x \in g1, y \in g2 } ELSE { <<x, y, z>> : x \in g1, y \in g2, z \in g3 }
  IN { [na |-> k, pts |-> Fresh(1, n, k), seq |-> s] : s \in all }

\* all ways to give n points one of three keys; the other attribute tells the points apart
Keyed(n) == { [i \in 1..n |-> <<f[i], 100 + i>>] : f \in [1..n -> {3, 4, 8}] }

Tours(ws(_), os(_, _, _)) ==
  { Case(c[1], Fresh(1, c[2], c[1]), UNION { os(w, c[2], c[1]) : w \in ws(c[2]) }) : c \in {1, 2} \X (0..3) }

Cases ==
  CASE Prop = "B01" -> UNION { Seq3(c[1], c[2], IF Deep THEN 3 ELSE 2) : c \in {1, 2} \X {0, 2} }
    [] Prop = "B02" -> Tours(LAMBDA n : Windows(n, 1), LAMBDA w, n, k : Writes(w, n, k, 100, 0))
    [] Prop = "B03" -> Tours(LAMBDA n : Windows(n, 1), LAMBDA w, n, k : Reads(w, n, k, 0))
    [] Prop = "B04" -> Tours(LAMBDA n : Windows(n, 2) \cup BadWindows(n, 2), LAMBDA w, n, k : Reads(w, n, k, 1) \cup Writes(w, n, k, 100, 1))
    [] Prop = "B05" -> Tours(LAMBDA n : Windows(n, 1), LAMBDA w, n, k : Iters(w, n))
    [] Prop = "B06" -> { Case(2, ps, UNION { { s \in Sorts(w, 2) : s.at = 1 } : w \in {<<>>, << <<1, Len(ps)>> >>} }) : ps \in UNION { Keyed(n) : n \in 1..(IF Deep THEN 5 ELSE 4) } }
    [] Prop = "B07" -> { Case(c[1], Fresh(1, c[2], c[1]), Filters(c[2], c[1], 100)) : c \in {1, 2} \X (0..4) }
    [] Prop = "B09" -> Tours(LAMBDA n : {<<>>} \cup BadWindows(n, 1), LAMBDA w, n, k : Reads(w, n, k, 1) \cup Writes(w, n, k, 100, 1))

ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
=============================================================================
