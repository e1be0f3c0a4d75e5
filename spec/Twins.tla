------------------------------- MODULE Twins -------------------------------
(***************************************************************************)
(* Design of reproducible refinement (C15), as two copies of one iteration *)
(* side by side.  The clusters are scored by background tasks which finish *)
(* in any order, with any number of workers; results are consumed in the   *)
(* order of submission; features then draw from the session's random       *)
(* numbers one after another.  Whatever the two schedules are, the copies  *)
(* end in the same state, having used the same number of random numbers.   *)
(***************************************************************************)
EXTENDS Prelude
CONSTANTS Clusters, Features, Scores, W1, W2
VARIABLES score, coin, started, finished, consumed, best, home, drawn, pc
vars == <<score, coin, started, finished, consumed, best, home, drawn, pc>>
Copy == {1, 2}
Workers == <<W1, W2>>
N == Cardinality(Clusters)
F == Cardinality(Features)

Home0 == [f \in Features |-> (f % N) + 1]
Init == /\ score \in [Clusters -> [Features -> Scores]]     \* tasks are functions of committed data
        /\ coin \in [1..F -> BOOLEAN]                       \* the random numbers to come
        /\ started = [c \in Copy |-> 0]
        /\ finished = [c \in Copy |-> {}]
        /\ consumed = [c \in Copy |-> 0]
        /\ best = [c \in Copy |-> [f \in Features |-> <<-100, 0>>]]
        /\ home = [c \in Copy |-> Home0]
        /\ drawn = [c \in Copy |-> 0]
        /\ pc = [c \in Copy |-> "score"]

Start(c) == /\ pc[c] = "score" /\ started[c] < N
            /\ started[c] - Cardinality(finished[c]) < Workers[c]
            /\ started' = [started EXCEPT ![c] = @ + 1]
            /\ UNCHANGED <<score, coin, finished, consumed, best, home, drawn, pc>>
Finish(c) == /\ pc[c] = "score"
             /\ \E k \in (1..started[c]) \ finished[c] : finished' = [finished EXCEPT ![c] = @ \cup {k}]
             /\ UNCHANGED <<score, coin, started, consumed, best, home, drawn, pc>>
Better(a, b) == a[1] > b[1] \/ (a[1] = b[1] /\ a[2] > b[2])
Consume(c) == /\ pc[c] = "score" /\ consumed[c] < N /\ consumed[c] + 1 \in finished[c]
              /\ LET k == consumed[c] + 1
                 IN /\ consumed' = [consumed EXCEPT ![c] = k]
                    /\ best' = [best EXCEPT ![c] = [f \in Features |->
                                  IF Better(<<score[k][f], k>>, @[f]) THEN <<score[k][f], k>> ELSE @[f]]]
                    /\ pc' = [pc EXCEPT ![c] = IF k = N THEN "move" ELSE "score"]
              /\ UNCHANGED <<score, coin, started, finished, home, drawn>>
Move(c) == /\ pc[c] = "move"
           /\ LET f == drawn[c] + 1
              IN IF f > F THEN pc' = [pc EXCEPT ![c] = "done"] /\ UNCHANGED <<home, drawn>>
                 ELSE /\ drawn' = [drawn EXCEPT ![c] = f]
                      /\ home' = IF coin[f] THEN [home EXCEPT ![c][f] = best[c][f][2]] ELSE home
                      /\ UNCHANGED pc
           /\ UNCHANGED <<score, coin, started, finished, consumed, best>>
Next == \E c \in Copy : Start(c) \/ Finish(c) \/ Consume(c) \/ Move(c)
Spec == Init /\ [][Next]_vars

Same == (\A c \in Copy : pc[c] = "done") => home[1] = home[2] /\ drawn[1] = drawn[2] /\ best[1] = best[2]
Ends == \A c \in Copy : pc[c] = "done" \/ ENABLED Start(c) \/ ENABLED Finish(c) \/ ENABLED Consume(c) \/ ENABLED Move(c)
=============================================================================
