------------------------------ MODULE CliTrace ------------------------------
(***************************************************************************)
(* Recorded histories of commands on the files of a user.                  *)
(*                                                                         *)
(* steps: k (the command), ok, op (its options), pre and post (what there  *)
(*        is before and after it: corpus = the texts, index = a digest of  *)
(*        everything stored, model, content), lines = <<kind, text,        *)
(*        is blank>>*, twin (is the result the one of the library?), files *)
(*        (was the output left alone?), rows and head (of a spreadsheet),  *)
(*        k2 (limit), docs and marks (of a sample)                         *)
(***************************************************************************)
EXTENDS ModelJudge, WebOps, Json

Traces == JsonDeserialize("trace.json")
VARIABLES t, l

ContentOf(e) ==
  LET S == SetOf(e)
      at(f) == CHOOSE r \in S : r[1] = f
      F == {r[1] : r \in S}
  IN [docs |-> TLCEval([f \in F |-> SetOf(at(f)[4])]), field |-> TLCEval([f \in F |-> at(f)[2]]), value |-> TLCEval([f \in F |-> at(f)[3]])]

ReadOnly(s) == {<<"reading-changes-nothing", s.pre = s.post>>}
Fails(s) == {<<"fails", s.ok = 0>>, <<"failing-changes-nothing", s.pre = s.post /\ s.files = 1>>}

Texts(s) == LET kept == SelectSeq(s.lines, LAMBDA x : x[3] = 0) IN [i \in DOMAIN kept |-> kept[i][2]]
Created(s) ==
  {<<"create-leaves-index", s.post.index = s.pre.index>>}
  \cup (IF s.op.readable = 1
        THEN {<<"create", s.ok = 1>>, <<"create-documents", s.post.corpus = Texts(s)>>}
        ELSE {<<"create-unreadable", s.ok = 0>>, <<"create-all-or-nothing", s.post.corpus = s.pre.corpus>>})

(* what a dump adds is C22 *)
Added(s) ==
  {<<"site-leaves-index", s.post.index = s.pre.index>>, <<"site-like-the-library", s.twin = 1>>}
  \cup (IF s.op.readable = 1 THEN {<<"site", s.ok = 1>>}
        ELSE {<<"site-unreadable", s.ok = 0>>, <<"site-all-or-nothing", s.post.corpus = s.pre.corpus>>})

Indexed(s) ==
  {<<"index-leaves-corpus", s.post.corpus = s.pre.corpus>>}
  \cup (IF s.op.there = 0 THEN Fails(s)
        ELSE {<<"index", s.ok = 1>>, <<"index-like-the-library", s.twin = 1>>,
              <<"index-keeps-model", Abs(s.post.model) = Abs(s.pre.model)>>,
              <<"index-documents", LET K == ContentOf(s.post.content)
                                       D == UNION {K.docs[f] : f \in DOMAIN K.docs}
                                   IN Cardinality(D) <= Len(s.post.corpus)>>})

Modelled(s) ==
  LET M == Abs(s.pre.model)
      M2 == Abs(s.post.model)
      K == ContentOf(s.pre.content)
      op == s.op
      has == Live(M) # {}
      new == ~has \/ op.restart = 1
      n == IF op.clusters = 0 THEN 64 ELSE op.clusters
      refine == [name |-> "refine", sel |-> <<>>, min |-> op.least, target |-> op.clusters, iters |-> op.iters, prob |-> op.prob,
                 probe |-> <<>>, exhaustive |-> IF op.batches = 0 THEN 1 ELSE 0]
  IN IF op.index = 0 \/ (has /\ op.restart = 1 /\ op.confirm = 0) THEN Fails(s)
     ELSE {<<"model-leaves-corpus", s.post.corpus = s.pre.corpus /\ s.post.content = s.pre.content>>,
           <<"model-like-the-library", s.twin = 1>>,
           <<"partition", Partition(s.post.model)>>,
           <<"summaries", SummaryDocs(s.post.model, K) /\ SummaryCounts(s.post.model, K) /\ FeatureCounts(s.post.model, K)>>}
          \cup (IF new
                THEN IF op.iters < 1 THEN {<<"model-fails", s.ok = 0>>, <<"model-initialised", IsInitialisation(M2, K, n, op.min, SetOf(op.fields))>>}
                     ELSE {<<"model-works", s.ok = 1>>,
                           <<"model-created", IsRecreation(M2, K, [op EXCEPT !.clusters = n] @@ [n |-> n])>>}
                ELSE IF op.iters < 1 \/ (s.ok = 0 /\ MayFail(M, K, refine)) THEN Fails(s)
                     ELSE {<<"model-works", s.ok = 1>>} \cup EditOK(M, M2, K, refine, 0))

Exported(s) ==
  LET M == Abs(s.pre.model)
      K == ContentOf(s.pre.content)
      of(c) == LET X == SelectSeq(s.rows, LAMBDA r : r[1] = c) IN [i \in DOMAIN X |-> <<X[i][2], X[i][3], X[i][4], X[i][5]>>]
  IN IF s.op.index = 0 THEN Fails(s)
     ELSE ReadOnly(s) \cup
          {<<"export", s.ok = 1 /\ s.head = 1>>,
           <<"export-clusters", {r[1] : r \in SetOf(s.rows)} = IF s.k2 < 0 THEN {} ELSE Live(M)>>,
           <<"export-features", \A c \in Live(M) : TopRows(of(c), IF s.k2 = 0 THEN Cardinality(Members(M, c)) ELSE s.k2, M, K, c)>>}

Sampled(s) ==
  LET M == Abs(s.pre.model)
      K == ContentOf(s.pre.content)
      C == [c \in Live(M) |-> DocsOfCluster(M, K, c)]
      of(c) == {r[1] : r \in {r \in SetOf(s.docs) : r[2] = c}}
      all == {r[1] : r \in SetOf(s.docs)}
      known == {r[2] : r \in SetOf(s.docs)} \subseteq Live(M)
      upto(c) == UNION {of(d) : d \in {d \in Live(M) : Cardinality(C[d]) <= Cardinality(C[c])}}
  IN IF s.op.index = 0 \/ s.op.there = 0 THEN Fails(s)
     ELSE IF s.op.stale = 1 THEN ReadOnly(s)
     ELSE ReadOnly(s) \cup
          {<<"sample", s.ok = 1>>,
           <<"sample-texts", \A r \in SetOf(s.docs) : r[3] = 1>>,
           <<"sample-once", Cardinality(all) = Len(s.docs)>>,
           <<"sample-clusters", known>>,
           <<"sample-own-documents", known => \A c \in Live(M) : of(c) \subseteq C[c]>>,
           <<"sample-limit", s.k2 > 0 => \A c \in Live(M) : Cardinality(of(c)) <= s.k2>>,
           <<"sample-complete", \A c \in Live(M) : s.k2 = 0 \/ Cardinality(of(c)) < s.k2 => C[c] \subseteq upto(c)>>,
           <<"sample-marks", /\ Len(s.marks) = Len(s.docs)
                             /\ \A i \in DOMAIN s.marks : s.marks[i][1] = s.docs[i][1]
                                  /\ SetOf(s.marks[i][2]) = {c \in Live(M) : s.marks[i][1] \in C[c]}>>}

Bad(tr, i) ==
  LET s == tr.steps[i]
  IN Violated(CASE s.k = "create" -> Created(s)
                [] s.k = "site" -> Added(s)
                [] s.k = "index" -> Indexed(s)
                [] s.k = "model" -> Modelled(s)
                [] s.k = "export" -> Exported(s)
                [] s.k = "graph" -> IF s.op.index = 0 THEN Fails(s) ELSE ReadOnly(s) \cup {<<"graph", s.ok = 1 /\ s.twin = 1>>}
                [] s.k = "sample" -> Sampled(s)
                [] s.k = "serve" -> IF s.op.index = 0 \/ s.op.there = 0 THEN Fails(s) ELSE ReadOnly(s) \cup {<<"serve", s.ok = 1 /\ s.twin = 1>>}
                [] s.k = "refused" -> {<<"refuses-other-files", s.ok = 0>>, <<"other-files-are-kept", s.twin = 1 /\ s.files = 1>>})

Named(S) == {"C25:" \o x : x \in S}
Report(a, b) == LET bad == Bad(Traces[a], b)
                IN IF bad = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson(<<a, b, Named(bad)>>))
Init == t \in DOMAIN Traces /\ l = 0
Next == l < Len(Traces[t].steps) /\ l' = l + 1 /\ t' = t /\ Report(t, l')
Spec == Init /\ [][Next]_<<t, l>>
=============================================================================
