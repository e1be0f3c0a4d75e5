----------------------------- MODULE Objective ------------------------------
(***************************************************************************)
(* The clustering objective, exactly.                                      *)
(*                                                                         *)
(* For a set of features F with document sets D, c = |union of D|,         *)
(* h = sum of |D|, n = |F|:   objective = h/(c+n) - h/(h+n)                *)
(* as a fraction <<numerator, denominator>>.                               *)
(***************************************************************************)
EXTENDS ModelOps


DocsP(K, f, probe) == IF probe = {} THEN K.docs[f] ELSE K.docs[f] \cap probe

FracObj(h, c, n) == <<h * (h - c), (c + n) * (h + n)>>
(* h/(c+n) - h/(h+n) = h*((h+n)-(c+n)) / ((c+n)*(h+n)) = h*(h-c)/((c+n)(h+n)) *)

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Reduce(x) == LET g == Gcd(IF x[1] < 0 THEN -x[1] ELSE x[1], x[2]) IN <<x[1] \div g, x[2] \div g>>

Sub(x, y) ==
  LET a == Reduce(x)
      b == Reduce(y)
      g == Gcd(a[2], b[2])
      l == (a[2] \div g) * b[2]
  IN Reduce(<<a[1] * (b[2] \div g) - b[1] * (a[2] \div g), l>>)

Hits(K, F, probe) == SumOver([f \in F |-> Cardinality(DocsP(K, f, probe))], F)
Cover(K, F, probe) == UNION {DocsP(K, f, probe) : f \in F}
Obj(K, F, probe) ==
  IF F = {} THEN <<0, 1>>
  ELSE FracObj(Hits(K, F, probe), Cardinality(Cover(K, F, probe)), Cardinality(F))

MinusOne == <<-1, 1>>

(* gain of having f in the cluster F (F includes or excludes f) *)
Gain(K, F, f, probe) ==
  LET rest == F \ {f}
      D == DocsP(K, f, probe)
  IN IF f \in F
     THEN IF Cover(K, rest, probe) = {} THEN <<0, 1>>
          ELSE IF D \cap Cover(K, rest, probe) # {}
               THEN Sub(Obj(K, F, probe), Obj(K, rest, probe))
               ELSE MinusOne
     ELSE IF D \cap Cover(K, F, probe) # {}
          THEN Sub(Obj(K, F \cup {f}, probe), Obj(K, F, probe))
          ELSE MinusOne

Probe(op) == SetOf(op.probe)

BestClusters(M, K, op, f) ==
  LET act == Active(M, op)
      g == [c \in act |-> Gain(K, Members(M, c), f, Probe(op))]
  IN {c \in act : \A d \in act : ~Less(g[c], g[d])}

(* C12 *)
MovesToBest(M, M2, K, op) ==
  \A f \in Movable(M, op) :
     LET best == BestClusters(M, K, op, f)
         orig == M.of[f]
     IN \/ M2.of[f] \in best
        \/ /\ M2.of[f] = orig
           \* it was at the minimum when it was the turn of f
           /\ Cardinality({g \in Members(M, orig) : M2.of[g] = orig}) <= op.min

(* the clusters dissolved are the ones with the lowest objectives among those without pinned features *)
DissolvesLowest(M, M2, K, op) ==
  LET act == Active(M, op)
      cand == act \ PinnedHolders(M, op)
      gone == act \ Live(M2)
      o == [c \in act |-> Obj(K, Members(M, c), Probe(op))]
  IN gone \subseteq cand /\ \A c \in gone : \A d \in cand \ gone : ~Less(o[d], o[c])
=============================================================================
