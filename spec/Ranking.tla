------------------------------ MODULE Ranking ------------------------------
(* What ranked and similarity queries mean (C16, C17, C20). *)
EXTENDS Prelude

(* -- counting in how many sets each document is; sets: a sequence of sets ------------- *)
Count(sets, d) == Cardinality({i \in DOMAIN sets : d \in sets[i]})
Matching(sets) == UNION {sets[i] : i \in DOMAIN sets}

(* S is an acceptable selection of the best k among the documents with the counts n[d]. *)
TopOK(S, M, n, k) ==
  /\ S \subseteq M
  /\ Cardinality(M) <= k => S = M
  /\ Cardinality(M) > k =>
       /\ Cardinality(S) >= k
       /\ \A x \in S, y \in M \ S : n[y] <= n[x]
       /\ Cardinality(S) > k =>
            LET low == MinOf({n[x] : x \in S})
                above == {x \in S : n[x] > low}
            IN IF k = 0 THEN above = {} ELSE Cardinality(above) < k

(* -- similarity ----------------------------------------------------------------------- *)
Jaccard(A, B) == <<Cardinality(A \cap B), Max2(1, Cardinality(A \cup B))>>
Meets(A, B) == A \cap B # {}

(* rows: a sequence of <<feature, similarity>>, D[f] the documents of a feature *)
TopFeatures(rows, F, D, Q, k) ==
  LET shown == {rows[i][1] : i \in DOMAIN rows}
      match == {f \in F : Meets(D[f], Q)}
  IN /\ shown \subseteq match
     /\ Cardinality(shown) = Len(rows)
     /\ Len(rows) = Min2(k, Cardinality(match))
     /\ \A i \in DOMAIN rows : RatEq(rows[i][2], Jaccard(D[rows[i][1]], Q))
     /\ \A i \in 1..(Len(rows) - 1) : ~Less(rows[i][2], rows[i + 1][2])
     /\ \A f \in match \ shown : \A g \in shown : ~Less(Jaccard(D[g], Q), Jaccard(D[f], Q))

(* rows: a sequence of <<cluster, similarity>>, C[c] the documents of a cluster *)
RankedClusters(rows, K, C, Q) ==
  /\ {rows[i][1] : i \in DOMAIN rows} = {c \in K : Meets(C[c], Q)}
  /\ Distinct([i \in DOMAIN rows |-> rows[i][1]])
  /\ \A i \in DOMAIN rows : RatEq(rows[i][2], Jaccard(C[rows[i][1]], Q))
  /\ \A i \in 1..(Len(rows) - 1) : ~Less(rows[i][2], rows[i + 1][2])
=============================================================================
