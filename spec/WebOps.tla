------------------------------- MODULE WebOps -------------------------------
(***************************************************************************)
(* What the pages of the web interface show, and where it redirects to     *)
(* (C24).  A model M and an index content K as in ModelOps.                *)
(* Numbers are shown with three digits: <<m, e>> stands for m/100 * 10^e.  *)
(***************************************************************************)
EXTENDS ModelOps, Ranking

RECURSIVE Pow10(_)
Pow10(n) == IF n = 0 THEN 1 ELSE 10 * Pow10(n - 1)
Abs2(x) == IF x < 0 THEN -x ELSE x
(* x = <<m, e>> is the rational q = <<n, d>> rounded *)
Shows(x, q) ==
  /\ x[1] >= 0
  /\ IF x[2] <= 2 THEN 2 * Abs2(x[1] * q[2] - q[1] * Pow10(2 - x[2])) <= q[2]
     ELSE 2 * Abs2(x[1] * q[2] * Pow10(x[2] - 2) - q[1]) <= q[2] * Pow10(x[2] - 2)

DocsOfCluster(M, K, c) == UNION {K.docs[f] : f \in Members(M, c)}
DocsOfFeature(K, f) == IF f \in DOMAIN K.docs THEN K.docs[f] ELSE {}

(* the documents an overview or a cluster page is about *)
OverviewQuery(M, K, w) == IF w.feature # 0 THEN DocsOfFeature(K, w.feature)
                          ELSE IF w.cluster # -1 THEN DocsOfCluster(M, K, w.cluster) ELSE {}
ClusterQuery(M, K, w) ==
  LET base == DocsOfCluster(M, K, w.cluster)
      one == IF w.feature # 0 THEN base \cap DocsOfFeature(K, w.feature) ELSE base
  IN IF w.filter # -1 THEN one \cap DocsOfCluster(M, K, w.filter) ELSE one

(* rows <<feature, field, value, shown>> of the named features *)
Keys(rows, K) == \A i \in DOMAIN rows : rows[i][1] \in DOMAIN K.docs
                                        /\ rows[i][2] = K.field[rows[i][1]] /\ rows[i][3] = K.value[rows[i][1]]
ByCount(rows, k, F, K) ==
  LET n(i) == Cardinality(K.docs[rows[i][1]])
      shown == {rows[i][1] : i \in DOMAIN rows}
  IN /\ shown \subseteq F /\ Cardinality(shown) = Len(rows) /\ Len(rows) = Min2(k, Cardinality(F))
     /\ Keys(rows, K)
     /\ \A i \in DOMAIN rows : Shows(rows[i][4], <<n(i), 1>>)
     /\ \A i \in 1..(Len(rows) - 1) : n(i) >= n(i + 1)
     /\ \A f \in F \ shown, i \in DOMAIN rows : Cardinality(K.docs[f]) <= n(i)
BySimilarity(rows, k, F, K, Q) ==
  /\ {rows[i][1] : i \in DOMAIN rows} \subseteq F
  /\ Keys(rows, K)
  /\ TopFeatures([i \in DOMAIN rows |-> <<rows[i][1], Jaccard(K.docs[rows[i][1]], Q)>>], F, K.docs, Q, k)
  /\ \A i \in DOMAIN rows : Shows(rows[i][4], Jaccard(K.docs[rows[i][1]], Q))

(* blocks <<cluster, shown, rows>> *)
Overview(blocks, M, K, k) ==
  LET C(i) == DocsOfCluster(M, K, blocks[i][1])
  IN {<<"overview-clusters", /\ {blocks[i][1] : i \in DOMAIN blocks} = Live(M) /\ Len(blocks) = Cardinality(Live(M))
                             /\ \A i \in 1..(Len(blocks) - 1) : Cardinality(C(i)) >= Cardinality(C(i + 1))>>,
      <<"overview-counts", \A i \in DOMAIN blocks : Shows(blocks[i][2], <<Cardinality(C(i)), 1>>)>>,
      <<"overview-features", \A i \in DOMAIN blocks : ByCount(blocks[i][3], k, Members(M, blocks[i][1]), K)>>}
PivotPage(blocks, M, K, Q, k) ==
  LET C == [c \in Live(M) |-> DocsOfCluster(M, K, c)]
      known == {blocks[i][1] : i \in DOMAIN blocks} \subseteq Live(M)
  IN {<<"pivot-clusters", known /\ RankedClusters([i \in DOMAIN blocks |-> <<blocks[i][1], Jaccard(C[blocks[i][1]], Q)>>], Live(M), C, Q)>>,
      <<"pivot-similarity", known => \A i \in DOMAIN blocks : Shows(blocks[i][2], Jaccard(C[blocks[i][1]], Q))>>,
      <<"pivot-features", known => \A i \in DOMAIN blocks : BySimilarity(blocks[i][3], k, Members(M, blocks[i][1]), K, Q)>>}

(* a sample of at most n documents and the number of all of them *)
Documents(page, Q, n, available) ==
  LET m == Min2(n, Cardinality(Q))
  IN IF ~available \/ m = 0 THEN page.docs = <<>>
     ELSE /\ SetOf(page.docs) \subseteq Q /\ Distinct(page.docs) /\ Len(page.docs) = m
          /\ page.total = Cardinality(Q) /\ (page.sample = 1) = (m < Cardinality(Q))

(* neighbours of a cluster in a circle *)
NextTo(L, c) == IF \E d \in L : d > c THEN MinOf({d \in L : d > c}) ELSE MinOf(L)
PrevTo(L, c) == IF \E d \in L : d < c THEN MaxOf({d \in L : d < c}) ELSE MaxOf(L)

ClusterPage(page, M, K, w) ==
  LET Q == ClusterQuery(M, K, w)
      F == Members(M, w.cluster)
      b == page.clusters[1]
      match == {f \in F : Meets(K.docs[f], Q)}
  IN IF Len(page.clusters) # 1 \/ b[1] # w.cluster THEN {<<"cluster-page", FALSE>>}
     ELSE {<<"cluster-features", IF match = {} THEN ByCount(b[3], Cardinality(F), F, K) ELSE BySimilarity(b[3], Cardinality(F), F, K, Q)>>,
           <<"cluster-documents", Documents(page, Q, w.n, w.docs = 1)>>,
           (* a circle of nothing but cluster 0 isn't linked *)
           <<"cluster-neighbours", /\ {PrevTo(Live(M), w.cluster), NextTo(Live(M), w.cluster)} \subseteq SetOf(page.nav) \cup {0}
                                   /\ SetOf(page.nav) \subseteq {w.cluster, PrevTo(Live(M), w.cluster), NextTo(Live(M), w.cluster)}>>,
           <<"cluster-pinned", (page.unpin = 1) = (w.cluster \in M.cp)>>,
           <<"cluster-visible", page.unpin = 1 \/ SetOf(page.visible) = {b[3][i][1] : i \in DOMAIN b[3]}>>}

(* the spreadsheet: <<cluster, feature, field, value, docs>> *)
Spreadsheet(rows, M, K) ==
  /\ SetOf(rows) = {<<M.of[f], f, K.field[f], K.value[f], Cardinality(K.docs[f])>> : f \in Feats(M)}
  /\ Distinct(rows)

(* <<field, cardinality, lowest, highest, positions>>, several values can look like the lowest *)
Details(rows, K) ==
  LET fields == {K.field[f] : f \in DOMAIN K.docs}
      of(x) == {f \in DOMAIN K.docs : K.field[f] = x}
  IN /\ {rows[i][1] : i \in DOMAIN rows} = fields /\ Len(rows) = Cardinality(fields)
     /\ \A i \in DOMAIN rows :
          LET F == of(rows[i][1])
          IN /\ rows[i][2] = Cardinality(F)
             /\ MinOf({K.value[f] : f \in F}) \in SetOf(rows[i][3])
             /\ MaxOf({K.value[f] : f \in F}) \in SetOf(rows[i][4])
             /\ rows[i][5] = SumOver([f \in F |-> K.positions[f]], F)

(* where an edit redirects to: <<kind, cluster, feature>>; ret = the cluster it returned *)
Redirect(op, w, ret) ==
  CASE op.name \in {"create", "merge"} -> <<"cluster", ret, 0>>
    [] w.to = "cluster" -> <<"cluster", w.cluster, 0>>
    [] w.to = "pivot" -> <<"pivot", w.cluster, 0>>
    [] OTHER -> <<"index", -1, 0>>
(* what follows: the page, or what the page redirects to *)
Exists(target, M) == target[2] = -1 \/ target[2] \in Live(M)
Follows(target, M) == IF target[1] \in {"index", "pivot"} /\ Live(M) = {} THEN <<"details", -1, 0>> ELSE target

(* a model created anew and then refined *)
IsRecreation(M2, K, op) ==
  LET E == Eligible(K, op.min, SetOf(op.fields))
      n == Min2(op.n, Cardinality(E))
  IN /\ Feats(M2) = E /\ M2.fp = {} /\ M2.cp = {}
     /\ Cardinality(Live(M2)) = n
     /\ n > 0 => \A c \in Live(M2) : Cardinality(Members(M2, c)) >= Min2(op.least, Cardinality(E) \div n)
=============================================================================
