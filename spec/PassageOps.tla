----------------------------- MODULE PassageOps -----------------------------
(***************************************************************************)
(* Positional queries.                                                     *)
(*                                                                         *)
(* A document field is a sequence of values; offsets count from 0.         *)
(*   Offs(d, V)       the offsets in d of the values in V                  *)
(* The definitions are per document: nothing crosses documents.            *)
(***************************************************************************)
EXTENDS Prelude

Offs(d, V) == {i - 1 : i \in {j \in DOMAIN d : d[j] \in V}}
NearDef(n, P, w) == {i \in 0..(n - 1) : \E p \in P : i - p <= w /\ p - i <= w}
(* the same, without looking at every pair *)
Near(n, P, w) == UNION {Max2(0, p - w)..Min2(n - 1, p + w) : p \in P}

(* declarative: a position of one of the clauses near a position of every other clause *)
QualifyDef(d, clauses, w) ==
  {i \in UNION {Offs(d, clauses[c]) : c \in DOMAIN clauses} :
     \E c \in DOMAIN clauses :
        /\ i \in Offs(d, clauses[c])
        /\ \A e \in DOMAIN clauses \ {c} : i \in NearDef(Len(d), Offs(d, clauses[e]), w)}
(* the same, looking at each clause once *)
Within(i, P, w) == \E p \in P : i - p <= w /\ p - i <= w
QualifySets(d, clauses, w) ==
  LET offs == TLCEval([c \in DOMAIN clauses |-> Offs(d, clauses[c])])
  IN UNION {{i \in offs[c] : \A e \in DOMAIN clauses \ {c} : Within(i, offs[e], w)} : c \in DOMAIN clauses}

(* by narrowing windows, clause by clause in the given order: what is left has to be near a position of each of `near` *)
RECURSIVE Narrow(_, _, _, _, _, _)
Narrow(d, clauses, w, k, pos, near) ==
  LET in(i) == \A j \in DOMAIN near : Within(i, near[j], w)
  IN IF k > Len(clauses) THEN {i \in pos : in(i)}
     ELSE LET cp == {i \in Offs(d, clauses[k]) : in(i)}
          IN IF cp = {} THEN {} ELSE Narrow(d, clauses, w, k + 1, pos \cup cp, Append(near, cp))
QualifyNarrow(d, clauses, w) ==
  LET first == Offs(d, clauses[1]) IN Narrow(d, clauses, w, 2, first, <<first>>)

Perms(n) == {p \in [1..n -> 1..n] : {p[i] : i \in 1..n} = 1..n}
Reorder(cl, p) == [i \in DOMAIN cl |-> cl[p[i]]]
(* the orders in which the clauses can be narrowed: fewest positions first; weight is a function of the clause number *)
Orders(cl, weight) == {p \in Perms(Len(cl)) : \A i \in 1..(Len(cl) - 1) : weight[p[i]] <= weight[p[i + 1]]}

Qualify(d, clauses, w, order) ==
  IF Len(clauses) <= 2 THEN QualifySets(d, clauses, w) ELSE QualifyNarrow(d, Reorder(clauses, order), w)

(* maximal runs with gaps of at most w: <<first, last, number of positions>> *)
Runs(Q, w) ==
  {<<a, b, Cardinality({q \in Q : a <= q /\ q <= b})>> :
     a \in {q \in Q : ~\E p \in Q : p < q /\ q - p <= w},
     b \in {q \in Q : ~\E p \in Q : p > q /\ p - q <= w}}
PassagesDef(Q, w) ==
  {r \in Runs(Q, w) : r[1] <= r[2] /\ \A x \in Q : (r[1] <= x /\ x < r[2]) => \E y \in Q : y > x /\ y - x <= w /\ y <= r[2]}
(* the same, taking the first end after each start *)
Passages(Q, w) ==
  LET starts == {q \in Q : ~\E p \in Q : p < q /\ q - p <= w}
      ends == {q \in Q : ~\E p \in Q : p > q /\ p - q <= w}
  IN {LET b == MinOf({e \in ends : e >= a}) IN <<a, b, Cardinality({q \in Q : a <= q /\ q <= b})>> : a \in starts}

(* text windows *)
Slice(d, a, b) == SubSeq(d, Max2(0, a) + 1, Min2(Len(d), b + 1))     \* offsets a..b, clipped
=============================================================================
