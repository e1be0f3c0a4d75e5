------------------------------- MODULE Model --------------------------------
(***************************************************************************)
(* The life of a cluster model: all edits on a small index.  Every         *)
(* transition is printed, and replayed on the real code by the checks.     *)
(***************************************************************************)
EXTENDS ModelOps, Json

CONSTANTS NF,        \* features are 1..NF
          MaxCid,    \* explored cluster ids
          Refines,   \* include refinement
          Emit       \* print transitions

F == 1..NF
(* documents: overlapping sets, one feature without documents *)
K == [docs |-> [f \in F |-> IF f = NF /\ NF > 2 THEN {} ELSE {f, f + 1}], field |-> [f \in F |-> 1]]

VARIABLE M

Cids == 0..(MaxCid + 1)

SeqsOf(S) == {<<x>> : x \in S} \cup {<<x, y>> : x, y \in S}

Ops ==
  {[name |-> "merge", cs |-> cs] : cs \in {<<>>} \cup SeqsOf(Cids)}
  \cup {[name |-> "merge", cs |-> <<x, y, z>>] : x, y, z \in {0, 1, 2}}
  \cup {[name |-> "delclusters", cs |-> cs] : cs \in {<<>>} \cup {<<x>> : x \in Cids} \cup {<<0, 1>>}}
  \cup {[name |-> "delfeatures", fs |-> fs] : fs \in {<<>>} \cup SeqsOf(F \cup {NF + 5})}
  \cup {[name |-> "create", fs |-> fs] : fs \in {<<>>} \cup SeqsOf(F \cup {NF + 5})}
  \cup {[name |-> "pinf", fs |-> fs, on |-> on] : fs \in {<<x>> : x \in F \cup {NF + 5}}, on \in {0, 1}}
  \cup {[name |-> "pinc", cs |-> cs, on |-> on] : cs \in {<<x>> : x \in Cids}, on \in {0, 1}}
  \cup {[name |-> "init", n |-> n, min |-> m, fields |-> fl] : n \in 1..3, m \in {1, 2}, fl \in {<<>>, <<1>>, <<2>>}}

NextId(m) == IF Live(m) = {} THEN 1 ELSE MaxOf(Live(m)) + 1

Unknown(op) == op.name = "create" /\ ~(SetOf(op.fs) \subseteq F)

(* all models which can follow m by op; {} if the operation is refused *)
Results(m, op) ==
  CASE op.name = "merge" -> IF op.cs = <<>> THEN {} ELSE {Merge(m, op.cs)}
    [] op.name = "delclusters" -> {DeleteClusters(m, op.cs)}
    [] op.name = "delfeatures" -> {DeleteFeatures(m, op.fs)}
    [] op.name = "create" -> IF Unknown(op) THEN {} ELSE {Create(m, op.fs, NextId(m))}
    [] op.name = "pinf" -> {PinFeatures(m, op.fs, op.on = 1)}
    [] op.name = "pinc" -> {PinClusters(m, op.cs, op.on = 1)}
    [] op.name = "init" ->
         {r \in {[of |-> g, fp |-> {}, cp |-> {}] : g \in [Eligible(K, op.min, SetOf(op.fields)) -> 0..(op.n - 1)]} :
            IsInitialisation(r, K, op.n, op.min, SetOf(op.fields))}

(* refinement, as far as the model is concerned: any redistribution the rules allow *)
RefineArgs == {[sel |-> s, min |-> mn, target |-> tg, iters |-> 2] :
                 s \in {<<>>, <<0>>, <<0, 1>>}, mn \in {1, 2}, tg \in {0, 1, 2, 3}}
RefineResults(m, a) ==
  {r \in {[m EXCEPT !.of = g] : g \in [Feats(m) -> 0..(MaxCid + 1)]} :
     /\ RefineKeepsPinnedClusters(m, r) /\ RefineKeepsPinnedFeatures(m, r)
     /\ RefineKeepsOthers(m, r, a) /\ RefineFreshIds(m, r) /\ RefineCount(m, r, a) /\ RefineMinimum(m, r, a)
     /\ (RefineNothingToDo(m, a) => r = m)}

Init == M = EmptyModel

Show(m) == [fc |-> {<<f, m.of[f], IF f \in m.fp THEN 1 ELSE 0>> : f \in Feats(m)}, cp |-> m.cp]
EmitEdge(m, op, r) == ~Emit \/ PrintT("EDGE " \o ToJson(<<Show(m), op, Show(r)>>))

Next ==
  \/ \E op \in Ops : \/ Results(M, op) = {} /\ M' = M /\ EmitEdge(M, op, M)
                     \/ \E r \in Results(M, op) : M' = r /\ EmitEdge(M, op, r)
  \/ Refines /\ \E a \in RefineArgs : \E r \in RefineResults(M, a) : M' = r

Bounded == \A c \in Live(M) : c <= MaxCid
Spec == Init /\ [][Next]_M

TypeOK == Feats(M) \subseteq F /\ WellFormed(M)
(* the rules for refinement can always be met, unless fewer clusters are asked for than are pinned *)
RefineFeasible ==
  \A a \in RefineArgs : Target(M, a) >= 0 /\ Cardinality(Movable(M, a)) > 0 => RefineResults(M, a) # {}
(* pins last until the cluster or feature leaves, or until they are changed *)
PinsLast ==
  [][ /\ \A f \in M.fp : (f \in Feats(M') /\ f \notin M'.fp) =>
            \E op \in Ops : op.name \in {"pinf", "init"} /\ M' \in Results(M, op)
      /\ \A c \in M.cp : (c \in Live(M') /\ c \notin M'.cp) =>
            \E op \in Ops : op.name \in {"pinc", "init"} /\ M' \in Results(M, op) ]_M
=============================================================================
