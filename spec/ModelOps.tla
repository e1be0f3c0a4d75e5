------------------------------ MODULE ModelOps ------------------------------
(***************************************************************************)
(* The cluster model of an index and the operations on it.                 *)
(*                                                                         *)
(* A model M is a record                                                   *)
(*    of : function from the features of the model to their cluster        *)
(*    fp : pinned features,   cp : pinned clusters                         *)
(* The clusters of the model are the values of `of`: a cluster without     *)
(* features does not exist.                                                *)
(*                                                                         *)
(* An index content K is a record                                          *)
(*    docs : function from all known features to their documents           *)
(*    field: function from all known features to their field               *)
(***************************************************************************)
EXTENDS Prelude

Feats(M) == DOMAIN M.of
Live(M) == {M.of[f] : f \in DOMAIN M.of}
Members(M, c) == {f \in DOMAIN M.of : M.of[f] = c}
EmptyModel == [of |-> <<>>, fp |-> {}, cp |-> {}]

(* pins of what is no longer part of the model are lost *)
Norm(of, fp, cp) == [of |-> of, fp |-> fp \cap DOMAIN of, cp |-> cp \cap {of[f] : f \in DOMAIN of}]

WellFormed(M) == M.fp \subseteq Feats(M) /\ M.cp \subseteq Live(M)

Restrict(g, S) == [x \in S |-> g[x]]

------------------------------------------------------------------------------
(* Editing *)

Merge(M, cs) ==
  Norm([f \in Feats(M) |-> IF M.of[f] \in SetOf(cs) THEN cs[1] ELSE M.of[f]], M.fp, M.cp)

DeleteClusters(M, cs) ==
  Norm(Restrict(M.of, {f \in Feats(M) : M.of[f] \notin SetOf(cs)}), M.fp, M.cp)

DeleteFeatures(M, fs) == Norm(Restrict(M.of, Feats(M) \ SetOf(fs)), M.fp, M.cp)

Create(M, fs, new) ==
  Norm([f \in Feats(M) \cup SetOf(fs) |-> IF f \in SetOf(fs) THEN new ELSE M.of[f]], M.fp, M.cp)

PinFeatures(M, fs, on) ==
  [M EXCEPT !.fp = IF on THEN @ \cup (SetOf(fs) \cap Feats(M)) ELSE @ \ SetOf(fs)]

PinClusters(M, cs, on) ==
  [M EXCEPT !.cp = IF on THEN @ \cup (SetOf(cs) \cap Live(M)) ELSE @ \ SetOf(cs)]

(* features taking part in a new model *)
Eligible(K, min, fields) ==
  {f \in DOMAIN K.docs : Cardinality(K.docs[f]) >= min /\ (fields = {} \/ K.field[f] \in fields)}

IsInitialisation(M2, K, n, min, fields) ==
  LET E == Eligible(K, min, fields)
      sizes == {Cardinality(Members(M2, c)) : c \in Live(M2)}
  IN /\ Feats(M2) = E
     /\ M2.fp = {} /\ M2.cp = {}
     /\ Cardinality(Live(M2)) = Min2(n, Cardinality(E))
     /\ \A a, b \in sizes : a - b <= 1

------------------------------------------------------------------------------
(* Refining.  a: sel (selected clusters, <<>> = all), min, target (0 = none), iters *)

Selected(M, a) == IF a.sel = <<>> THEN Live(M) ELSE SetOf(a.sel) \cap Live(M)
Active(M, a) == Selected(M, a) \ M.cp
Movable(M, a) == {f \in Feats(M) : M.of[f] \in Active(M, a)} \ M.fp

(* C10 *)
RefineConserves(M, M2) == Feats(M2) = Feats(M)
RefineKeepsPinnedClusters(M, M2) == \A c \in M.cp : Members(M2, c) = Members(M, c)
RefineKeepsPinnedFeatures(M, M2) == \A f \in M.fp : f \in Feats(M2) /\ M2.of[f] = M.of[f]
RefineKeepsOthers(M, M2, a) == \A c \in Live(M) \ Active(M, a) : Members(M2, c) = Members(M, c)
RefineKeepsPins(M, M2) == M2.fp = M.fp /\ M2.cp = M.cp

(* C11 *)
NewClusters(M, M2) == Live(M2) \ Live(M)
FinalClusters(M, M2, a) == Live(M2) \ (Live(M) \ Active(M, a))
CurrentCount(M, a) == Cardinality(Active(M, a))
Target(M, a) == IF a.target = 0 THEN CurrentCount(M, a)
                ELSE LET t == a.target - Cardinality(Selected(M, a) \cap M.cp)
                     IN IF t = 0 THEN CurrentCount(M, a) ELSE t
PinnedHolders(M, a) == {c \in Active(M, a) : Members(M, c) \cap M.fp # {}}
RefineNothingToDo(M, a) == Movable(M, a) = {}
RefineFreshIds(M, M2) == \A c \in NewClusters(M, M2) : \A d \in Live(M) : c > d
(* number of clusters afterwards *)
RefineCount(M, M2, a) ==
  LET cnt == CurrentCount(M, a)
      tgt == Target(M, a)
      fin == Cardinality(FinalClusters(M, M2, a))
  IN \/ RefineNothingToDo(M, a)
     \/ tgt < 0           \* more selected clusters are pinned than the target allows
     \/ tgt = cnt /\ Active(M, a) \subseteq Live(M2) /\ NewClusters(M, M2) = {}
     \/ tgt > cnt /\ fin >= cnt /\ fin <= tgt /\ Cardinality(NewClusters(M, M2)) <= tgt - cnt
     \/ tgt > 0 /\ tgt < cnt /\ fin = Max2(tgt, Cardinality(PinnedHolders(M, a))) /\ NewClusters(M, M2) = {}
RefineReachesTarget(M, M2, a) ==
  LET tgt == Target(M, a)
  IN (/\ tgt > CurrentCount(M, a) /\ M.fp \cap {f \in Feats(M) : M.of[f] \in Active(M, a)} = {}
      /\ Cardinality(Movable(M, a)) >= 50 * tgt)
     => Cardinality(FinalClusters(M, M2, a)) = tgt
RefineMinimum(M, M2, a) ==
  Target(M, a) <= CurrentCount(M, a) =>
     \A c \in Active(M, a) \cap Live(M2) :
        Cardinality(Members(M2, c)) >= Min2(a.min, Cardinality(Members(M, c)))

------------------------------------------------------------------------------
(* What is stored: fc = <<feature, cluster, pinned, docs>>*, cl = <<cluster, features, docs, weight, pinned, doc ids>>* *)

Abs(s) ==
  LET fc == SetOf(s.fc)
      cl == SetOf(s.cl)
  IN [of |-> [f \in {r[1] : r \in fc} |-> (CHOOSE r \in fc : r[1] = f)[2]],
      fp |-> {r[1] : r \in {x \in fc : x[3] = 1}},
      cp |-> {r[1] : r \in {x \in cl : x[5] = 1}}]

(* C08: a partition into listed, non-empty clusters *)
Partition(s) ==
  /\ Cardinality({r[1] : r \in SetOf(s.fc)}) = Len(s.fc)
  /\ Cardinality({r[1] : r \in SetOf(s.cl)}) = Len(s.cl)
  /\ {r[2] : r \in SetOf(s.fc)} = {r[1] : r \in SetOf(s.cl)}

(* C09 *)
SummaryDocs(s, K) ==
  \A r \in SetOf(s.cl) :
     LET fs == {f \in {x[1] : x \in {y \in SetOf(s.fc) : y[2] = r[1]}} : TRUE}
     IN SetOf(r[6]) = UNION {K.docs[f] : f \in fs}
SummaryCounts(s, K) ==
  \A r \in SetOf(s.cl) :
     LET fs == {x[1] : x \in {y \in SetOf(s.fc) : y[2] = r[1]}}
     IN /\ r[2] = Cardinality(fs)
        /\ r[3] = Cardinality(UNION {K.docs[f] : f \in fs})
        /\ r[4] = SumOver([f \in fs |-> Cardinality(K.docs[f])], fs)
FeatureCounts(s, K) ==
  \A r \in SetOf(s.fc) : r[1] \in DOMAIN K.docs /\ r[4] = Cardinality(K.docs[r[1]])
=============================================================================
