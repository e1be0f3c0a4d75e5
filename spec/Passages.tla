------------------------------ MODULE Passages ------------------------------
(***************************************************************************)
(* The stored layout of a batch (documents laid end to end in one range of *)
(* positions, with their boundaries), and the algorithms on it, compared   *)
(* with the definitions of PassageOps on every small batch.                *)
(***************************************************************************)
EXTENDS PassageOps

CONSTANTS Docs,      \* number of documents
          MaxLen,    \* longest document
          Vals,      \* values; clause c asks for value c or value 9
          NC,        \* number of clauses
          Windows

VARIABLES batch, w
vars == <<batch, w>>

SeqsUpTo(n) == UNION {[1..k -> Vals] : k \in 1..n}
Init == batch \in [1..Docs -> SeqsUpTo(MaxLen)] /\ w = -1
Next == w = -1 /\ w' \in Windows /\ batch' = batch
Spec == Init /\ [][Next]_vars

Clauses == [c \in 1..NC |-> {c, 9}]

(* the layout *)
RECURSIVE Starts(_, _)
Starts(b, k) == IF k = 1 THEN 0 ELSE Starts(b, k - 1) + Len(b[k - 1])
Bounds == {Starts(batch, k) : k \in 1..Docs} \cup {Starts(batch, Docs) + Len(batch[Docs])}
Flat(V) == UNION {{Starts(batch, k) + o : o \in Offs(batch[k], V)} : k \in 1..Docs}
DocOf(p) == CHOOSE k \in 1..Docs : Starts(batch, k) <= p /\ p < Starts(batch, k) + Len(batch[k])
StartB(p) == MaxOf({b \in Bounds : b <= p})
EndB(p) == MinOf({b \in Bounds : b > p})
Expand(P) == UNION {Max2(StartB(p), p - w)..(Min2(EndB(p), p + w + 1) - 1) : p \in P}

RECURSIVE NarrowFlat(_, _, _, _)
NarrowFlat(cl, k, pos, win) ==
  IF k > Len(cl) THEN pos \cap win
  ELSE LET cp == Flat(cl[k]) \cap win
       IN IF cp = {} THEN {} ELSE NarrowFlat(cl, k + 1, pos \cup cp, win \cap Expand(cp))
QualifyFlat(cl) == NarrowFlat(cl, 2, Flat(cl[1]), Expand(Flat(cl[1])))

(* walking through the positions in order *)
RECURSIVE Walk(_, _, _, _, _)
Walk(P, start, last, n, out) ==
  LET this == <<DocOf(start), start - StartB(start), last - StartB(start), n>>
      rest == {p \in P : p > last}
  IN IF rest = {} THEN out \cup {this}
     ELSE LET q == MinOf(rest)
          IN IF q >= EndB(last) \/ q - last > w THEN Walk(P, q, q, 1, out \cup {this})
             ELSE Walk(P, start, q, n + 1, out)
WalkAll(P) == IF P = {} THEN {} ELSE Walk(P, MinOf(P), MinOf(P), 1, {})

Expected(order) ==
  UNION {{<<k, r[1], r[2], r[3]>> : r \in Passages(Qualify(batch[k], Clauses, w, order), w)} : k \in 1..Docs}

(* every order of the clauses which the layout could ask for *)
AlgorithmIsDefinition ==
  w >= 0 => \A p \in Perms(NC) : WalkAll(QualifyFlat(Reorder(Clauses, p))) = Expected(p)
(* with two clauses the order doesn't matter *)
OrderIrrelevant ==
  w >= 0 /\ NC <= 2 => \A p, q \in Perms(NC) : QualifyFlat(Reorder(Clauses, p)) = QualifyFlat(Reorder(Clauses, q))
(* collocations: counting in the layout is counting in the documents *)
CollocationIsDefinition ==
  w >= 0 => \A v \in Vals : LET win == Expand(Flat({1})) IN
    Cardinality(win \cap Flat({v})) =
      SumOver([k \in 1..Docs |-> Cardinality(Near(Len(batch[k]), Offs(batch[k], {1}), w) \cap Offs(batch[k], {v}))], 1..Docs)
(* the quicker definitions are the same as the ones that say what is meant *)
QuickIsDefinition ==
  w >= 0 => \A k \in 1..Docs :
    LET d == batch[k]
        q == QualifySets(d, Clauses, w)
    IN /\ NearDef(Len(d), Offs(d, {1, 9}), w) = Near(Len(d), Offs(d, {1, 9}), w)
       /\ q = QualifyDef(d, Clauses, w)
       /\ Passages(q, w) = PassagesDef(q, w)
       /\ LET o == Offs(d, {1, 9}) IN Passages(o, w) = PassagesDef(o, w)
=============================================================================
