----------------------------- MODULE ModelTrace -----------------------------
(* Evaluates recorded histories of operations on a model. *)
EXTENDS ModelJudge, Json

Traces == JsonDeserialize("trace.json")
VARIABLES t, l

(*
 trace: epochs = sequence of index contents, each <<feature, field, value, docs>>*
        steps: e (epoch), op [name, ...], exc, ret, post [fc, cl], lists
 The first step has op.name "load".
*)

Bad(tr, i) ==
  LET s == tr.steps[i]
      K == Content(tr.epochs[s.e])
      M == IF i = 1 THEN EmptyModel ELSE Abs(tr.steps[i - 1].post)
      M2 == Abs(s.post)
      op == s.op
      refused == op.name # "load" /\ Refused(M, K, op)
      may == op.name # "load" /\ MayFail(M, K, op)
      part == Partition(s.post)
      known == Feats(M2) \subseteq DOMAIN K.docs
      pre == IF op.name = "reindex" THEN "C03:" ELSE "C09:"
      group == CASE op.name = "refine" -> "C11:" [] op.name = "reindex" -> "C03:" [] OTHER -> "C08:"
  IN Violated({
       <<"C08:partition", part>>,
       <<"C08:known-features", known>>,
       <<pre \o "summary-docs", known => SummaryDocs(s.post, K)>>,
       <<pre \o "summary-counts", known => SummaryCounts(s.post, K)>>,
       <<pre \o "feature-counts", known => FeatureCounts(s.post, K)>>,
       <<group \o "refused", refused => s.exc # "">>,
       <<group \o "accepted", ~refused /\ ~may => s.exc = "">>,
       <<group \o "failure-changes-nothing", (refused \/ s.exc # "") => M2 = M>>}
     \cup (IF op.name # "load" /\ part /\ known /\ s.exc = "" /\ ~refused THEN EditOK(M, M2, K, op, s.ret) ELSE {})
     \cup (IF part /\ known THEN ListsOK(M2, K, s.lists) ELSE {}))

Report(a, b) == LET bad == Bad(Traces[a], b)
                IN IF bad = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson(<<a, b, bad>>))

Init == t \in DOMAIN Traces /\ l = 0
Next == l < Len(Traces[t].steps) /\ l' = l + 1 /\ t' = t /\ Report(t, l')
Spec == Init /\ [][Next]_<<t, l>>
=============================================================================
