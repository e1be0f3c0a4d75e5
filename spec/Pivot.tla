------------------------------- MODULE Pivot -------------------------------
(***************************************************************************)
(* Design of the pivot: the features of a cluster are visited in the order *)
(* of an upper bound of their similarity with the query, computed from     *)
(* counts alone; the search stops when the bound cannot reach the worst of *)
(* the k best found.  The result is an exact top k.                        *)
(***************************************************************************)
EXTENDS Ranking
CONSTANTS Docs, F, MaxK
VARIABLES D, Q, k, todo, best, pc
vars == <<D, Q, k, todo, best, pc>>

ClusterDocs == UNION {D[f] : f \in F}
Bound(f) == LET m == Min2(Cardinality(D[f]), Cardinality(ClusterDocs \cap Q))
            IN <<m, Max2(1, Cardinality(Q) + Cardinality(D[f]) - m)>>
Sim(f) == Jaccard(D[f], Q)

(* best: the features kept; fewer than k count as similarity zero *)
Worst == IF Cardinality(best) < k THEN <<0, 1>>
         ELSE Sim(CHOOSE f \in best : \A g \in best : ~Less(Sim(g), Sim(f)))

Init == /\ D \in [F -> SUBSET Docs] /\ Q \in SUBSET Docs \ {{}} /\ k \in 0..MaxK
        /\ todo = F /\ best = {} /\ pc = "search"
Visit == /\ pc = "search" /\ todo # {} /\ k > 0
         /\ \E f \in todo :
              /\ \A g \in todo : ~Less(Bound(f), Bound(g))
              /\ IF Less(Bound(f), Worst) THEN pc' = "done" /\ UNCHANGED <<todo, best>>
                 ELSE /\ todo' = todo \ {f} /\ pc' = pc
                      /\ IF Sim(f)[1] = 0 THEN best' = best
                         ELSE IF Cardinality(best) < k THEN best' = best \cup {f}
                         ELSE \E w \in {g \in best : RatEq(Sim(g), Worst)} :
                                best' = IF Less(Sim(w), Sim(f)) THEN (best \ {w}) \cup {f} ELSE best
         /\ UNCHANGED <<D, Q, k>>
Finish == pc = "search" /\ (todo = {} \/ k = 0) /\ pc' = "done" /\ UNCHANGED <<D, Q, k, todo, best>>
Next == Visit \/ Finish
Spec == Init /\ [][Next]_vars

(* the bound is one *)
BoundHolds == \A f \in F : ~Less(Bound(f), Sim(f))
RECURSIVE Rank(_)
Rank(S) == IF S = {} THEN <<>>
           ELSE LET f == CHOOSE x \in S : \A g \in S : ~Less(Sim(x), Sim(g))
                IN <<<<f, Sim(f)>>>> \o Rank(S \ {f})
ResultIsTopK == pc = "done" => TopFeatures(Rank(best), F, D, Q, k)
=============================================================================
