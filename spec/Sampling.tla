------------------------------ MODULE Sampling -----------------------------
(***************************************************************************)
(* Structured samples and retrieval of documents (C18, C19).               *)
(*                                                                         *)
(* The design: clusters are visited in increasing document count, each     *)
(* contributes min(n, available) of its documents which are not taken yet. *)
(***************************************************************************)
EXTENDS Prelude

(* C[c]: documents of cluster c; Sel: clusters to visit; n = 0: no limit *)
Size(C, c, taken, n) == LET a == Cardinality(C[c] \ taken) IN IF n = 0 THEN a ELSE Min2(n, a)

(* rows: <<cluster, sample>> in the order of the visit *)
SampleOK(C, Sel, n, rows) ==
  LET at(i) == SetOf(rows[i][2])
      before(i) == UNION {at(j) : j \in 1..(i - 1)}
  IN {<<"C18:clusters", {rows[i][1] : i \in DOMAIN rows} = Sel /\ Len(rows) = Cardinality(Sel)>>,
      <<"C18:order", \A i \in 1..(Len(rows) - 1) : rows[i][1] \in Sel /\ rows[i + 1][1] \in Sel =>
           Cardinality(C[rows[i][1]]) <= Cardinality(C[rows[i + 1][1]])>>,
      <<"C18:own-documents", \A i \in DOMAIN rows : rows[i][1] \in Sel => at(i) \subseteq C[rows[i][1]]>>,
      <<"C18:without-replacement", \A i \in DOMAIN rows : at(i) \cap before(i) = {} /\ Distinct(rows[i][2])>>,
      <<"C18:size", \A i \in DOMAIN rows : rows[i][1] \in Sel =>
           Cardinality(at(i)) = Size(C, rows[i][1], before(i), n)>>}

(* marks: <<cluster, documents>>, for all clusters of the model which cover something sampled *)
MarksOK(C, rows, marks) ==
  LET all == UNION {SetOf(rows[i][2]) : i \in DOMAIN rows}
  IN {<<"C18:coverage", /\ {<<x[1], SetOf(x[2])>> : x \in SetOf(marks)}
                             = {<<c, C[c] \cap all>> : c \in {c \in DOMAIN C : C[c] \cap all # {}}}
                        /\ Distinct([i \in DOMAIN marks |-> marks[i][1]])>>}

(* -- the design as a state machine ------------------------------------------------------ *)
CONSTANTS Docs, K, MaxN
VARIABLES C, Sel, n, order, rows
vars == <<C, Sel, n, order, rows>>
Taken == UNION {SetOf(rows[i][2]) : i \in DOMAIN rows}
AsSeq(S) == CHOOSE s \in [1..Cardinality(S) -> S] : SetOf(s) = S
Init == /\ C \in [K -> SUBSET Docs] /\ Sel \in SUBSET K /\ n \in 0..MaxN
        /\ order = Sel /\ rows = <<>>
Visit == \E c \in order :
           /\ \A d \in order : Cardinality(C[c]) <= Cardinality(C[d])
           /\ order' = order \ {c}
           /\ \E S \in SUBSET (C[c] \ Taken) :
                /\ Cardinality(S) = Size(C, c, Taken, n)
                /\ rows' = Append(rows, <<c, AsSeq(S)>>)
           /\ UNCHANGED <<C, Sel, n>>
Next == Visit
Spec == Init /\ [][Next]_vars

Accepted == order = {} => Violated(SampleOK(C, Sel, n, rows)) = {}
(* every sampled document is there once, and without a limit everything selected is sampled *)
Complete == order = {} /\ n = 0 => Taken = UNION {C[c] : c \in Sel}
Fair == order = {} => \A c \in Sel : Cardinality(C[c] \cap Taken) >= IF n = 0 THEN Cardinality(C[c]) ELSE Min2(n, Cardinality(C[c]))
=============================================================================
