------------------------------ MODULE Bitslice -----------------------------
(***************************************************************************)
(* Design of the ranked queries: sets of documents are accumulated in bit  *)
(* slices with a ripple carry, the best k are found from the highest slice *)
(* down.  Slices after any sequence of additions hold the exact counts,    *)
(* and the selection is acceptable for every k.                            *)
(***************************************************************************)
EXTENDS Ranking
CONSTANTS Docs, MaxSets
VARIABLES bits, match, count, n
vars == <<bits, match, count, n>>

(* add S from slice i on *)
RECURSIVE Ripple(_, _, _)
Ripple(b, S, i) ==
  IF i > Len(b) THEN IF S = {} THEN b ELSE Append(b, S)
  ELSE LET carry == b[i] \cap S
           x == [b EXCEPT ![i] = (@ \cup S) \ carry]
       IN IF carry = {} THEN x ELSE Ripple(x, carry, i + 1)

RECURSIVE Select(_, _, _, _)
Select(e, g, i, k) ==
  IF i = 0 THEN g \cup e
  ELSE LET x == g \cup (e \cap bits[i])
           s == Cardinality(x)
       IN IF s > k THEN Select(e \cap bits[i], g, i - 1, k)
          ELSE IF s < k THEN Select(e \ bits[i], x, i - 1, k)
          ELSE g \cup (e \cap bits[i])
Best(k) == IF Cardinality(match) <= k THEN match ELSE Select(match, {}, Len(bits), k)

RECURSIVE Pow2(_)
Pow2(i) == IF i = 0 THEN 1 ELSE 2 * Pow2(i - 1)
Value(d) == SumOver([i \in DOMAIN bits |-> IF d \in bits[i] THEN Pow2(i - 1) ELSE 0], DOMAIN bits)

Init == bits = <<{}>> /\ match = {} /\ count = [d \in Docs |-> 0] /\ n = 0
Add(S) == /\ n < MaxSets /\ n' = n + 1
          /\ bits' = Ripple(bits, S, 1)
          /\ match' = match \cup S
          /\ count' = [d \in Docs |-> count[d] + IF d \in S THEN 1 ELSE 0]
Next == \E S \in SUBSET Docs : Add(S)
Spec == Init /\ [][Next]_vars

Exact == \A d \in Docs : Value(d) = count[d]
MatchIsUnion == match = {d \in Docs : count[d] > 0}
BestIsAcceptable == \A k \in 0..(Cardinality(Docs) + 1) : TopOK(Best(k), match, count, k)
=============================================================================
