------------------------------ MODULE WebTrace ------------------------------
(***************************************************************************)
(* Recorded histories of requests to the web server.                       *)
(*                                                                         *)
(* trace: content = <<feature, field, value, docs, positions>>*            *)
(*        start = the model before the first request                       *)
(*        steps: k, status, loc and last (<<kind, cluster, feature>>: the  *)
(*        redirect and the last one of those followed), final (status of   *)
(*        the page redirected to), same (did the database stay the same?), *)
(*        released, post (the model afterwards), op, twin (does the same   *)
(*        operation of the library lead to the same model?), want (what    *)
(*        was asked for), page                                             *)
(***************************************************************************)
EXTENDS ModelJudge, WebOps, Json

Traces == JsonDeserialize("trace.json")
VARIABLES t, l

ContentOf(e) ==
  LET S == SetOf(e)
      at(f) == CHOOSE r \in S : r[1] = f
      F == {r[1] : r \in S}
  IN [docs |-> TLCEval([f \in F |-> SetOf(at(f)[4])]), field |-> TLCEval([f \in F |-> at(f)[2]]),
      value |-> TLCEval([f \in F |-> at(f)[3]]), positions |-> [f \in F |-> at(f)[5]]]

Ok(s) == s.status = 200
View(s) == {<<"viewing-changes-nothing", s.same = 1>>}
Redirected(s) == s.status \in {301, 302, 303, 307, 308}

Edit(s, M, M2, K) ==
  LET op == s.op
      refused == IF op.name = "recreate" THEN op.iters < 1 ELSE Refused(M, K, op)
      may == op.name = "refine" /\ MayFail(M, K, op)
      ret == s.loc[2]
      to == Redirect(op, s.want, ret)
  IN IF refused \/ (may /\ s.status >= 400)
     THEN {<<"refused-edits-are-errors", s.status >= 400>>, <<"refused-edits-change-nothing", M2 = M>>}
     ELSE {<<"edits-work", Redirected(s)>>,
           <<"like-the-library", s.twin = 1>>,
           <<"redirects", s.loc = to>>,
           <<"redirects-to-a-page", IF Exists(to, M2) THEN s.final = 200 /\ s.last = Follows(to, M2) ELSE s.final \in {200, 404}>>}
          \cup (IF op.name = "recreate" THEN {<<"recreates", IsRecreation(M2, K, op)>>}
                ELSE EditOK(M, M2, K, op, ret))

(* is what the page is about there? *)
Unknown(s, M) == (s.want.cluster # -1 /\ s.want.cluster \notin Live(M))

Bad(tr, i) ==
  LET s == tr.steps[i]
      K == ContentOf(tr.content)
      M == IF i = 1 THEN Abs(tr.start) ELSE Abs(tr.steps[i - 1].post)
      M2 == Abs(s.post)
      w == s.want
      Q == OverviewQuery(M, K, w)
  IN Violated({<<"index-is-released", s.released = 1>>,
               <<"partition", Partition(s.post)>>,
               <<"summaries", SummaryDocs(s.post, K) /\ SummaryCounts(s.post, K) /\ FeatureCounts(s.post, K)>>}
     \cup
     CASE s.k = "edit" -> Edit(s, M, M2, K)
       [] s.k = "wrong" -> {<<"only-by-post", s.status >= 400>>, <<"wrong-requests-change-nothing", s.same = 1>>}
       [] s.k = "nowhere" -> {<<"unknown-index", s.status \in {404, 405}>>, <<"unknown-index-changes-nothing", s.same = 1>>}
       [] s.k = "listing" -> View(s) \cup {<<"listing", s.page.linked = 1>>}
       [] s.k = "details" -> View(s) \cup {<<"details", Ok(s) /\ Details(s.page.fields, K)>>}
       [] s.k = "export" -> View(s) \cup {<<"export", Ok(s) /\ s.page.head = 1 /\ Spreadsheet(s.page.rows, M, K)>>}
       [] s.k = "search" ->
            View(s) \cup (IF w.feature = 0 THEN {<<"search-for-nothing", s.status >= 400>>}
                          ELSE {<<"search", Redirected(s) /\ s.loc = (IF w.cluster = -1 THEN <<"index", -1, w.feature>>
                                                                      ELSE <<"cluster", w.cluster, w.feature>>)>>})
       [] s.k = "extracts" -> View(s) \cup {<<"extracts", Ok(s) /\ s.page.got = s.page.expected>>}
       [] s.k = "overview" ->
            View(s) \cup
            (IF Live(M) = {} THEN {<<"no-model", Redirected(s) /\ s.last = <<"details", -1, 0>> /\ s.final = 200>>}
             ELSE IF w.feature = 0 /\ Unknown(s, M) THEN {<<"unknown-cluster", s.status = 404>>}
             ELSE IF ~Ok(s) THEN {<<"overview-works", FALSE>>}
             ELSE (IF Q = {} THEN Overview(s.page.clusters, M, K, w.k) ELSE PivotPage(s.page.clusters, M, K, Q, w.k))
                  \cup {<<"overview-documents", Documents(s.page, Q, w.n, w.docs = 1)>>})
       [] s.k = "cluster" ->
            View(s) \cup
            (IF Unknown(s, M) \/ (w.filter # -1 /\ w.filter \notin Live(M)) THEN {<<"unknown-cluster", s.status = 404>>}
             ELSE IF ~Ok(s) THEN {<<"cluster-works", FALSE>>}
             ELSE ClusterPage(s.page, M, K, w)))

Named(S) == {"C24:" \o x : x \in S}
Report(a, b) == LET bad == Bad(Traces[a], b)
                IN IF bad = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson(<<a, b, Named(bad)>>))
Init == t \in DOMAIN Traces /\ l = 0
Next == l < Len(Traces[t].steps) /\ l' = l + 1 /\ t' = t /\ Report(t, l')
Spec == Init /\ [][Next]_<<t, l>>
=============================================================================
