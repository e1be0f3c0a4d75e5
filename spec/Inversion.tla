----------------------------- MODULE Inversion -----------------------------
(***************************************************************************)
(* What an index contains, as a function of the corpus.                    *)
(*                                                                         *)
(* A corpus is a sequence of documents [key, fields]; fields is a sequence *)
(* of [f, seq, vals]: field f, whether the values form a sequence (seq=1)  *)
(* or a set (seq=0), and the values.  Fields and values are numbered; the  *)
(* numbering of values follows the order in which the database sorts them. *)
(* Value 0 stands for a missing value (None).                              *)
(***************************************************************************)
EXTENDS Prelude

FieldsOf(doc) == SetOf(doc.fields)
ValuesIn(doc, f) == UNION {SetOf(g.vals) \ {0} : g \in {h \in FieldsOf(doc) : h.f = f}}

(* all (field, value) pairs of the corpus *)
Pairs(corpus) == UNION {UNION {{<<g.f, v>> : v \in SetOf(g.vals) \ {0}} : g \in FieldsOf(corpus[d])}
                        : d \in DOMAIN corpus}

(* positions in the corpus of the documents having value v in field f *)
DocsWith(corpus, f, v) == {d \in DOMAIN corpus : v \in ValuesIn(corpus[d], f)}

(* <<document, offset>> of every occurrence of v in the sequence field f, offsets from 0 *)
Occurrences(corpus, f, v) ==
  UNION {UNION {{<<d, i - 1>> : i \in {j \in DOMAIN g.vals : g.vals[j] = v}}
                : g \in {h \in FieldsOf(corpus[d]) : h.f = f /\ h.seq = 1}}
         : d \in DOMAIN corpus}

(* total number of values in the sequence fields named f *)
PositionTotal(corpus, f) ==
  LET lens == [d \in DOMAIN corpus |->
                 LET gs == {h \in FieldsOf(corpus[d]) : h.f = f /\ h.seq = 1}
                 IN IF gs = {} THEN 0 ELSE Len((CHOOSE g \in gs : TRUE).vals)]
  IN SumOver(lens, DOMAIN corpus)

=============================================================================
