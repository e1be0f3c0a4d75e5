------------------------------ MODULE Prelude ------------------------------
(* Helpers shared by all modules. Traces are JSON: arrays become sequences. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

SetOf(s) == {s[i] : i \in DOMAIN s}
Distinct(s) == Cardinality(SetOf(s)) = Len(s)
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

RECURSIVE SumOver(_, _)
(* sum of f(x) for x in the finite set S, f given as a function *)
SumOver(f, S) == IF S = {} THEN 0
                 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOver(f, S \ {x})

(* Named conditions: the violated ones among a set of <<name, holds>> pairs *)
Violated(conds) == {c[1] : c \in {d \in conds : ~d[2]}}

(* comparison of rationals <<n, d>> with d > 0, without large products *)
RECURSIVE RatLess(_, _, _, _)
RatLess(a, b, c, d) ==
  LET qa == a \div b
      qc == c \div d
      ra == a % b
      rc == c % d
  IN IF qa # qc THEN qa < qc
     ELSE IF rc = 0 THEN FALSE
     ELSE IF ra = 0 THEN TRUE
     ELSE RatLess(d, rc, b, ra)
Less(p, q) == RatLess(p[1], p[2], q[1], q[2])
RatEq(p, q) == ~Less(p, q) /\ ~Less(q, p)

Sorted(s, Leq(_, _)) == \A i \in 1..(Len(s) - 1) : Leq(s[i], s[i + 1])
=============================================================================
