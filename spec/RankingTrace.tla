---------------------------- MODULE RankingTrace ---------------------------
(***************************************************************************)
(* Ranked queries, pivots, cross tabulations and cluster graphs of the     *)
(* real code, evaluated against Ranking.                                   *)
(*                                                                         *)
(* trace: models = <<[features, clusters]>>*                               *)
(*          features = <<id, field, value, docs>>*, clusters = <<id,       *)
(*          feature ids>>*                                                 *)
(*        steps (m = number of the model they ran on):                     *)
(*   [k |-> "bits", sets, match, weights, tops]                            *)
(*   [k |-> "query", feats, match, weights, tops]  feats: ids, 0 unknown   *)
(*   [k |-> "pivot", q, sel, top, res]                                     *)
(*   [k |-> "cross", queries, field, values, totals, inter]                *)
(*   [k |-> "graph", top, named, nodes, edges]  nodes: <<id, count, label>> *)
(*        label: for each entry the <<field, value>>s it may stand for     *)
(* Similarities are exact fractions <<n, d>>; <<-1, 1>> stands for a float *)
(* which isn't the closest one to a small fraction.                        *)
(***************************************************************************)
EXTENDS Ranking, Json

Traces == JsonDeserialize("trace.json")
VARIABLES t, l

Feat(m) == {r[1] : r \in SetOf(m.features)}
DocsOf(m) == [f \in Feat(m) |-> LET i == CHOOSE i \in DOMAIN m.features : m.features[i][1] = f
                                IN SetOf(m.features[i][4])]
RowOf(m) == [f \in Feat(m) |-> LET i == CHOOSE i \in DOMAIN m.features : m.features[i][1] = f
                               IN m.features[i]]
Clusters(m) == {c[1] : c \in SetOf(m.clusters)}
In(m) == [c \in Clusters(m) |-> LET i == CHOOSE i \in DOMAIN m.clusters : m.clusters[i][1] = c
                                IN SetOf(m.clusters[i][2])]

BitsOK(sets, s) ==
  LET M == Matching(sets)
      n == [d \in M |-> Count(sets, d)]
  IN {<<"C17:matching", SetOf(s.match) = M /\ Len(s.match) = Cardinality(M)>>,
      <<"C17:counts", /\ {w[1] : w \in SetOf(s.weights)} = M
                      /\ Len(s.weights) = Cardinality(M)
                      /\ \A w \in SetOf(s.weights) : w[1] \in M => w[2] = n[w[1]]>>,
      <<"C17:best", \A x \in SetOf(s.tops) : TopOK(SetOf(x[2]), M, n, x[1])>>}

PivotOK(m, s) ==
  LET D == DocsOf(m)
      row == RowOf(m)
      inc == In(m)
      Q == SetOf(s.q)
      K == IF s.sel = <<>> THEN Clusters(m) ELSE SetOf(s.sel)
      C == [c \in K |-> UNION {D[f] : f \in inc[c]}]
  IN {<<"C16:clusters", RankedClusters([i \in DOMAIN s.res |-> <<s.res[i][1], s.res[i][2]>>], K, C, Q)>>,
      <<"C16:features", \A i \in DOMAIN s.res : s.res[i][1] \in K =>
           TopFeatures([j \in DOMAIN s.res[i][3] |-> <<s.res[i][3][j][1], s.res[i][3][j][4]>>],
                       inc[s.res[i][1]], D, Q, s.top)>>,
      <<"C16:keys", \A i \in DOMAIN s.res : \A j \in DOMAIN s.res[i][3] :
           LET r == s.res[i][3][j] IN r[1] \in Feat(m) => r[2] = row[r[1]][2] /\ r[3] = row[r[1]][3]>>}

CrossOK(m, s) ==
  LET vals == {r \in SetOf(m.features) : r[2] = s.field /\ r[4] # <<>>}
      row(v) == CHOOSE r \in vals : r[3] = v
  IN {<<"C20:values", SetOf(s.values) = {r[3] : r \in vals} /\ \A i \in 1..(Len(s.values) - 1) : s.values[i] < s.values[i + 1]>>,
      <<"C20:totals", /\ Len(s.totals) = Len(s.values)
                      /\ \A i \in DOMAIN s.totals : \A r \in vals : r[3] = s.values[i] => s.totals[i] = Len(r[4])>>,
      <<"C20:queries", {x[1] : x \in SetOf(s.inter)} = IF vals = {} THEN {x[1] : x \in SetOf(s.inter)} ELSE {q[1] : q \in SetOf(s.queries)}>>,
      <<"C20:intersections", \A q \in SetOf(s.queries) : \A x \in SetOf(s.inter) : x[1] = q[1] =>
           /\ Len(x[2]) = Len(s.values)
           /\ \A i \in DOMAIN x[2] : \A r \in vals : r[3] = s.values[i] =>
                x[2][i] = Cardinality(SetOf(r[4]) \cap SetOf(q[2]))>>}

GraphOK(m, s) ==
  LET D == DocsOf(m)
      row == RowOf(m)
      inc == In(m)
      C == [c \in Clusters(m) |-> UNION {D[f] : f \in inc[c]}]
      key(f) == IF s.named = 1 THEN <<row[f][2], row[f][3]>> ELSE <<0, row[f][3]>>
      n(f) == Len(row[f][4])
      E == {{e[1], e[2]} : e \in SetOf(s.edges)}
  IN {<<"C20:nodes", {x[1] : x \in SetOf(s.nodes)} = Clusters(m) /\ Len(s.nodes) = Cardinality(Clusters(m))>>,
      <<"C20:node-count", \A x \in SetOf(s.nodes) : x[1] \in Clusters(m) => x[2] = Cardinality(C[x[1]])>>,
      <<"C20:label", \A x \in SetOf(s.nodes) : x[1] \in Clusters(m) =>
           LET fs == inc[x[1]]
               size == Min2(s.top, Cardinality(fs))
               (* the features which may be at place i of the label *)
               may(i) == {f \in fs : key(f) \in SetOf(x[3][i])}
               counts == {n(f) : f \in fs}
               atleast(v) == Cardinality({f \in fs : n(f) >= v})
               more(v) == Cardinality({f \in fs : n(f) > v})
           IN /\ Len(x[3]) = size
              /\ \A i \in DOMAIN x[3] : \E f \in may(i) : more(n(f)) < i /\ i <= atleast(n(f))
              /\ s.named = 1 => \A i, j \in DOMAIN x[3] : i # j /\ x[3][i] = x[3][j] => Len(x[3][i]) > 1>>,
      <<"C20:edges", E = {{x[1], x[2]} : x \in {y \in Clusters(m) \X Clusters(m) : y[1] # y[2] /\ Meets(C[y[1]], C[y[2]])}}>>,
      <<"C20:each-edge-once", Cardinality(E) = Len(s.edges)>>,
      <<"C20:weights", \A e \in SetOf(s.edges) : e[1] \in Clusters(m) /\ e[2] \in Clusters(m) =>
           RatEq(e[3], Jaccard(C[e[1]], C[e[2]]))>>}

Bad(tr, i) ==
  LET s == tr.steps[i]
      m == tr.models[s.m]
  IN Violated(IF s.exc # "" THEN {<<s.prop \o ":works", FALSE>>}
              ELSE CASE s.k = "bits" -> BitsOK([j \in DOMAIN s.sets |-> SetOf(s.sets[j])], s)
                     [] s.k = "query" -> LET D == DocsOf(m)
                                         IN BitsOK([j \in DOMAIN s.feats |-> IF s.feats[j] \in Feat(m) THEN D[s.feats[j]] ELSE {}], s)
                     [] s.k = "pivot" -> PivotOK(m, s)
                     [] s.k = "cross" -> CrossOK(m, s)
                     [] s.k = "graph" -> GraphOK(m, s))

Report(a, b) == LET bad == Bad(Traces[a], b)
                IN IF bad = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson(<<a, b, bad>>))
Init == t \in DOMAIN Traces /\ l = 0
Next == l < Len(Traces[t].steps) /\ l' = l + 1 /\ t' = t /\ Report(t, l')
Spec == Init /\ [][Next]_<<t, l>>
=============================================================================
