----------------------------- MODULE ModelJudge -----------------------------
(* Verdicts on recorded operations: which clauses of the specification does a step violate? *)
EXTENDS ModelOps, Objective

Content(e) ==
  LET S == SetOf(e)
  IN [docs |-> [f \in {r[1] : r \in S} |-> SetOf((CHOOSE r \in S : r[1] = f)[4])],
      field |-> [f \in {r[1] : r \in S} |-> (CHOOSE r \in S : r[1] = f)[2]],
      value |-> [f \in {r[1] : r \in S} |-> (CHOOSE r \in S : r[1] = f)[3]]]

(* operations which have to be refused, and then change nothing *)
Refused(M, K, op) ==
  \/ op.name = "merge" /\ op.cs = <<>>
  \/ op.name = "create" /\ ~(SetOf(op.fs) \subseteq DOMAIN K.docs)
  \/ op.name = "refine" /\ op.iters < 1
MayFail(M, K, op) == op.name = "refine" /\ Target(M, op) < 0

(* C08: <<name, holds>> *)
EditOK(M, M2, K, op, ret) ==
  CASE op.name = "merge" -> {<<"C08:merge", M2 = Merge(M, op.cs) /\ ret = op.cs[1]>>}
    [] op.name = "delclusters" -> {<<"C08:delete-clusters", M2 = DeleteClusters(M, op.cs)>>}
    [] op.name = "delfeatures" -> {<<"C08:delete-features", M2 = DeleteFeatures(M, op.fs)>>}
    [] op.name = "create" -> {<<"C08:create", M2 = Create(M, op.fs, ret) /\ \A c \in Live(M) : ret > c>>}
    [] op.name = "pinf" -> {<<"C08:pin-features", M2 = PinFeatures(M, op.fs, op.on = 1)>>}
    [] op.name = "pinc" -> {<<"C08:pin-clusters", M2 = PinClusters(M, op.cs, op.on = 1)>>}
    [] op.name = "init" -> {<<"C08:initialise", IsInitialisation(M2, K, op.n, op.min, SetOf(op.fields))>>}
    [] op.name = "reindex" -> {<<"C03:model-kept", M2 = M>>}
    [] op.name = "observe" -> {<<"C08:reading-changes-nothing", M2 = M>>}
    [] op.name = "refine" ->
        {<<"C10:features-conserved", RefineConserves(M, M2)>>,
         <<"C10:pinned-clusters", RefineKeepsPinnedClusters(M, M2)>>,
         <<"C10:pinned-features", RefineKeepsPinnedFeatures(M, M2)>>,
         <<"C10:unselected-clusters", RefineKeepsOthers(M, M2, op)>>,
         <<"C10:pins-kept", RefineKeepsPins(M, M2)>>,
         <<"C11:nothing-to-do", RefineNothingToDo(M, op) => M2 = M>>,
         <<"C11:fresh-ids", RefineFreshIds(M, M2)>>,
         <<"C11:cluster-count", RefineCount(M, M2, op)>>,
         <<"C11:reaches-target", RefineReachesTarget(M, M2, op)>>,
         <<"C11:minimum-size", RefineMinimum(M, M2, op)>>,
         <<"C12:no-move-without-acceptance",
             op.prob = 0 /\ Target(M, op) = CurrentCount(M, op) => M2 = M>>,
         <<"C12:best-cluster",
             op.exhaustive = 1 /\ op.prob = 100 /\ op.iters = 1 /\ Target(M, op) = CurrentCount(M, op)
               => MovesToBest(M, M2, K, op)>>,
         <<"C11:dissolves-the-least-objective",
             op.prob = 0 /\ op.iters = 1 /\ Target(M, op) < CurrentCount(M, op) /\ Target(M, op) > 0
               => DissolvesLowest(M, M2, K, op)>>}
    [] OTHER -> {}

(* C09: listings. Ties between equal counts are listed in any order. *)
RowsOf(M, K, c) == {<<f, K.field[f], K.value[f], Cardinality(K.docs[f])>> : f \in Members(M, c)}
TopRows(rows, k, M, K, c) ==
  /\ Len(rows) = Min2(k, Cardinality(Members(M, c)))
  /\ Distinct(rows)
  /\ SetOf(rows) \subseteq RowsOf(M, K, c)
  /\ \A i \in 1..(Len(rows) - 1) : rows[i][4] >= rows[i + 1][4]
  /\ rows # <<>> => \A r \in RowsOf(M, K, c) \ SetOf(rows) : r[4] <= rows[Len(rows)][4]
ClusterUnion(M, K, c) == UNION {K.docs[f] : f \in Members(M, c)}

ListsOK(M, K, L) == {
  <<"C09:listing-clusters", \A q \in SetOf(L.top) :
     LET rows == q[2] IN
     /\ {r[1] : r \in SetOf(rows)} = Live(M) /\ Len(rows) = Cardinality(Live(M))
     /\ \A r \in SetOf(rows) : r[2] = Cardinality(ClusterUnion(M, K, r[1]))
     /\ \A i \in 1..(Len(rows) - 1) : rows[i][2] >= rows[i + 1][2]>>,
  <<"C09:listing-features", \A q \in SetOf(L.top) : \A r \in SetOf(q[2]) : r[1] \in Live(M) => TopRows(r[3], q[1], M, K, r[1])>>,
  <<"C09:cluster-features", \A q \in SetOf(L.cfeats) : TopRows(q[3], q[2], M, K, q[1])>>,
  <<"C09:cluster-docs", \A q \in SetOf(L.cdocs) : SetOf(q[2]) = ClusterUnion(M, K, q[1])>>,
  <<"C09:cluster-query", \A q \in SetOf(L.cquery) :
     /\ SetOf(q[2]) = ClusterUnion(M, K, q[1])
     /\ SetOf(q[3]) = {<<d, Cardinality({f \in Members(M, q[1]) : d \in K.docs[f]})>> : d \in ClusterUnion(M, K, q[1])}
     /\ Distinct(q[3])>>,
  <<"C09:cluster-ids", L.ids # <<-1>> =>
       SetOf(L.ids) = Live(M) /\ Len(L.ids) = Cardinality(Live(M))
       /\ \A i \in 1..(Len(L.ids) - 1) : L.ids[i] < L.ids[i + 1]>>,
  <<"C08:pinned-ids", L.ids # <<-1>> => SetOf(L.pinned) = M.cp>>}
=============================================================================
