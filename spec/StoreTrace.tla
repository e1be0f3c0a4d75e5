----------------------------- MODULE StoreTrace -----------------------------
(***************************************************************************)
(* Recorded runs of several sessions (C14), and of edits under faults      *)
(* (C13), as behaviours of Store: only commits change what is stored, each *)
(* commit is the whole operation of its session applied to what was        *)
(* committed just before, a failed or dead operation leaves nothing.       *)
(*                                                                         *)
(* trace: prop, epochs (contents of the index), steps:                     *)
(*   [k |-> "start", s, op]                                                *)
(*   [k |-> "commit", s, op, ret, e, post]   the stored state changed while*)
(*        session s was running op (s = 0: the initial state); want: what  *)
(*        the same operation makes of it when nothing disturbs it          *)
(*   [k |-> "end", s, op, exc, ret, clear, lists, intx]                    *)
(*        clear = 1: no other session was active in the meantime           *)
(*        exc: "" for success ; "crash" when the process died              *)
(*        intx = 1: the session is still in a transaction                  *)
(***************************************************************************)
EXTENDS ModelJudge, Json

Traces == JsonDeserialize("trace.json")
VARIABLES t, l

CommitsBefore(tr, i) == {j \in 1..(i - 1) : tr.steps[j].k = "commit"}
Last(tr, i) == MaxOf(CommitsBefore(tr, i))
StartOf(tr, i) == MaxOf({j \in 1..(i - 1) : tr.steps[j].k = "start" /\ tr.steps[j].s = tr.steps[i].s})
(* what was stored at some time since the start of the operation ending with step i *)
Visible(tr, i) == {Last(tr, StartOf(tr, i))} \cup {j \in CommitsBefore(tr, i) : j > StartOf(tr, i)}
Own(tr, i) == {j \in CommitsBefore(tr, i) : j > StartOf(tr, i) /\ tr.steps[j].s = tr.steps[i].s}

Reads == {"top", "cfeats", "cdocs", "cquery", "ids", "pinned", "feature", "field", "pivot"}
Ok(S) == \A x \in S : x[2]

FeatOK(K, q) == SetOf(q[2]) = K.docs[q[1]]
FieldOK(K, q) ==
  /\ \A i \in 1..(Len(q[2]) - 1) : q[2][i][1] < q[2][i + 1][1]
  /\ {<<r[1], r[2], SetOf(r[3])>> : r \in SetOf(q[2])}
       = {<<K.value[f], Cardinality(K.docs[f]), K.docs[f]>> :
            f \in {g \in DOMAIN K.docs : K.field[g] = q[1] /\ Cardinality(K.docs[g]) >= 1}}

ReadOK(tr, j, L) ==
  LET K == Content(tr.epochs[tr.steps[j].e])
      M == Abs(tr.steps[j].post)
  IN /\ Ok({x \in ListsOK(M, K, L) : x[1] # "C08:pinned-ids"})
     /\ \A q \in SetOf(L.top) : \A r \in SetOf(q[2]) : r[1] \in Live(M)
     /\ L.haspinned = 1 => SetOf(L.pinned) = M.cp
     /\ \A q \in SetOf(L.feature) : FeatOK(K, q)
     /\ \A q \in SetOf(L.field) : FieldOK(K, q)

(* pivoting hands every cluster to a worker: each of the results comes from one committed state *)
PivotOK(tr, j, r) ==
  LET K == Content(tr.epochs[tr.steps[j].e])
      M == Abs(tr.steps[j].post)
  IN r[1] \in Live(M) /\ {x[1] : x \in SetOf(r[2])} \subseteq Members(M, r[1])

Bad(tr, i) ==
  LET s == tr.steps[i]
  IN CASE s.k = "commit" ->
       LET K == Content(tr.epochs[s.e])
           M2 == Abs(s.post)
           known == Feats(M2) \subseteq DOMAIN K.docs
           ok == Partition(s.post) /\ known
           first == CommitsBefore(tr, i) = {}
           M == IF first THEN EmptyModel ELSE Abs(tr.steps[Last(tr, i)].post)
           K1 == IF first THEN K ELSE Content(tr.epochs[tr.steps[Last(tr, i)].e])
           again == ~first /\ \E j \in CommitsBefore(tr, i) :
                       tr.steps[j].s = s.s /\ j > StartOf(tr, i)
       IN Violated({<<"whole-model", ok>>,
                    <<"summaries-match", known => SummaryDocs(s.post, K) /\ SummaryCounts(s.post, K) /\ FeatureCounts(s.post, K)>>,
                    <<"readers-change-nothing", first \/ s.op.name \notin Reads>>,
                    <<"one-commit-per-operation", ~again>>,
                    <<"exactly-the-whole-edit", s.want = <<>> \/ s.post = s.want[1]>>,
                    <<"operation-applied-to-the-state-before", first \/ ~ok \/ s.op.name \in Reads
                         \/ (/\ ~Refused(M, K1, s.op)
                             /\ Ok(EditOK(M, M2, IF s.op.name = "reindex" THEN K ELSE K1, s.op, s.ret))
                             /\ (s.op.name = "reindex" => s.e = s.op.e)
                             /\ (s.op.name # "reindex" => K = K1))>>})
     [] s.k = "end" ->
       LET own == Own(tr, i)
           vis == Visible(tr, i)
           read == s.op.name \in Reads
       IN Violated({<<"failure-without-effect", s.exc # "" /\ s.exc # "crash" /\ s.exc # "late" => own = {}>>,
                    <<"success-is-stored", s.exc = "" /\ ~read /\ own = {} =>
                         \E j \in vis :
                            LET M == Abs(tr.steps[j].post)
                                K == Content(tr.epochs[tr.steps[j].e])
                            IN /\ ~Refused(M, K, s.op)
                               /\ Ok(EditOK(M, M, K, s.op, s.ret))
                               /\ (s.op.name = "reindex" => tr.steps[j].e = s.op.e)>>,
                    <<"works-alone", s.exc # "" /\ s.clear = 1 =>
                         LET j == Last(tr, i)
                             M == Abs(tr.steps[j].post)
                             K == Content(tr.epochs[tr.steps[j].e])
                         IN \/ ~read /\ (Refused(M, K, s.op) \/ MayFail(M, K, s.op))
                            \/ s.op.name = "cdocs" /\ s.op.c \notin Live(M)>>,
                    <<"readers-always-work", read /\ s.op.name # "pivot" /\ s.exc # "" =>
                         s.op.name = "cdocs" /\ \E j \in vis : s.op.c \notin Live(Abs(tr.steps[j].post))>>,
                    <<"reads-one-committed-state", read /\ s.exc = "" => \E j \in vis : ReadOK(tr, j, s.lists)>>,
                    <<"workers-read-committed-states", s.op.name = "pivot" /\ s.exc = "" =>
                         \A r \in SetOf(s.lists.pivot) : \E j \in vis : PivotOK(tr, j, r)>>,
                    <<"session-left-outside-of-transactions", s.intx = 0>>})
     [] OTHER -> {}

Named(tr, S) == {tr.prop \o ":" \o x : x \in S}
Report(a, b) == LET bad == Bad(Traces[a], b)
                IN IF bad = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson(<<a, b, Named(Traces[a], bad)>>))

Init == t \in DOMAIN Traces /\ l = 0
Next == l < Len(Traces[t].steps) /\ l' = l + 1 /\ t' = t /\ Report(t, l')
Spec == Init /\ [][Next]_<<t, l>>
=============================================================================
