------------------------------ MODULE IndexRun ------------------------------
(***************************************************************************)
(* One run of index(): the main process numbers the documents and sends    *)
(* batches to workers, which write segments to a temporary database; the   *)
(* segments are merged and committed in one transaction together with the  *)
(* statistics of the clusters.  Tasks can fail, the run can be interrupted *)
(* and the process can die at any point; readers see committed states.     *)
(*                                                                         *)
(* Documents are 1..ND, in batches of BS; document d has the values Val(d) *)
(* (a sequence).  A segment has the documents of the batch per value and   *)
(* the offsets of the values in the concatenation of its documents.        *)
(***************************************************************************)
EXTENDS Prelude, Json

CONSTANTS ND, BS, W,     \* documents, batch size, workers
          Faults,        \* failures, interrupts and crashes are possible
          Emit           \* print the schedules

NB == (ND + BS - 1) \div BS
DocsIn(b) == ((b - 1) * BS + 1)..Min2(ND, b * BS)

Words == {1, 2, 3}
(* a small corpus with repeated values, an empty document and one with several values *)
Text(d) == CASE d % 4 = 0 -> <<>> [] d % 4 = 1 -> <<1, 2, 1>> [] d % 4 = 2 -> <<2>> [] OTHER -> <<3, 1>>

VARIABLES phase,     \* of the main process
          next,      \* next batch to submit
          futures,   \* submitted and not collected
          status,    \* of each batch
          seg,       \* segments in the temporary database (sequence, in order of completion)
          temp,      \* temporary files exist
          tx,        \* uncommitted content, <<>> if there is none
          view,      \* committed content
          stats,     \* content which the committed cluster statistics belong to
          alive,     \* the process
          hist       \* schedule

vars == <<phase, next, futures, status, seg, temp, tx, view, stats, alive, hist>>

(* the inversion of the corpus *)
Docs(w) == {d \in 1..ND : \E i \in DOMAIN Text(d) : Text(d)[i] = w}
Occ(w) == UNION {{<<d, i - 1>> : i \in {j \in DOMAIN Text(d) : Text(d)[j] = w}} : d \in 1..ND}
New == [docs |-> [w \in Words |-> Docs(w)], occ |-> [w \in Words |-> Occ(w)]]
Old == [docs |-> [w \in Words |-> {0}], occ |-> [w \in Words |-> {}]]

(* what a worker makes of its batch: positions are offsets into all of the texts of the batch, and the starts of
   the non-empty documents are kept *)
RECURSIVE Concat(_, _)
Concat(a, b) == IF a > b THEN <<>> ELSE Text(a) \o Concat(a + 1, b)
LenTo(lo, d) == Len(Concat(lo, d - 1))
Segment(b) ==
  LET lo == (b - 1) * BS + 1
      hi == Min2(ND, b * BS)
      text == Concat(lo, hi)
      nonempty == {d \in DocsIn(b) : Text(d) # <<>>}
  IN [docs |-> [w \in Words |-> Docs(w) \cap DocsIn(b)],
      pos |-> [w \in Words |-> {i - 1 : i \in {j \in DOMAIN text : text[j] = w}}],
      ids |-> nonempty,
      starts |-> {LenTo(lo, d) : d \in nonempty} \cup {Len(text)}]

(* reading positions back: the document is found by the rank of the position among the starts *)
Nth(S, n) == CHOOSE x \in S : Cardinality({y \in S : y < x}) = n - 1
Decode(s, p) ==
  LET rank == Cardinality({x \in s.starts : x <= p})
  IN <<Nth(s.ids, rank), p - Nth(s.starts, rank)>>
Merged(S) ==
  [docs |-> [w \in Words |-> UNION {s.docs[w] : s \in SetOf(S)}],
   occ |-> [w \in Words |-> UNION {{Decode(s, p) : p \in s.pos[w]} : s \in SetOf(S)}]]

Init ==
  /\ phase = "reading" /\ next = 1 /\ futures = {} /\ status = [b \in 1..NB |-> "none"]
  /\ seg = <<>> /\ temp = TRUE /\ tx = <<>> /\ view = Old /\ stats = Old /\ alive = TRUE /\ hist = <<>>

Finished(b) == status[b] \in {"done", "error", "cancelled"}
Log(x) == hist' = Append(hist, x)

MustWait == Cardinality(futures) >= W + 1

Submit ==
  /\ phase = "reading" /\ next <= NB /\ ~MustWait
  /\ futures' = futures \cup {next} /\ status' = [status EXCEPT ![next] = "queued"] /\ next' = next + 1
  /\ Log(<<"S", next>>)
  /\ UNCHANGED <<phase, seg, temp, tx, view, stats, alive>>

(* the main process waits for room, and looks at the results *)
Collect ==
  /\ phase = "reading" /\ MustWait
  /\ \E b \in futures : Finished(b)
  /\ IF \E b \in futures : status[b] = "error"
     THEN phase' = "aborting" /\ UNCHANGED futures
     ELSE futures' = {b \in futures : ~Finished(b)} /\ UNCHANGED phase
  /\ UNCHANGED <<next, status, seg, temp, tx, view, stats, alive, hist>>

(* tasks are started in order; one of the first W unfinished ones completes *)
Running == {b \in 1..NB : /\ status[b] = "queued"
                          /\ Cardinality({x \in 1..NB : x < b /\ status[x] = "queued"}) < W}
Complete(b) ==
  /\ b \in Running /\ phase # "crashed"
  /\ status' = [status EXCEPT ![b] = "done"] /\ seg' = Append(seg, Segment(b))
  /\ Log(<<"C", b>>)
  /\ UNCHANGED <<phase, next, futures, temp, tx, view, stats, alive>>
TaskFails(b) ==
  /\ Faults /\ b \in Running /\ phase # "crashed"
  /\ status' = [status EXCEPT ![b] = "error"]
  /\ Log(<<"F", b>>)
  /\ UNCHANGED <<phase, next, futures, seg, temp, tx, view, stats, alive>>

Drained ==
  /\ phase = "reading" /\ next > NB
  /\ \A b \in futures : Finished(b)
  /\ phase' = IF \E b \in futures : status[b] = "error" THEN "aborting" ELSE "merging"
  /\ UNCHANGED <<next, futures, status, seg, temp, tx, view, stats, alive, hist>>

Merge ==
  /\ phase = "merging" /\ tx' = <<Merged(seg)>> /\ phase' = "summarising"
  /\ UNCHANGED <<next, futures, status, seg, temp, view, stats, alive, hist>>
(* content and statistics become visible together *)
Commit ==
  /\ phase = "summarising" /\ view' = tx[1] /\ stats' = tx[1] /\ phase' = "cleaning" /\ tx' = <<>>
  /\ UNCHANGED <<next, futures, status, seg, temp, alive, hist>>
CleanUp ==
  /\ phase = "cleaning" /\ temp' = FALSE /\ phase' = "done" /\ Log(<<"D">>)
  /\ UNCHANGED <<next, futures, status, seg, tx, view, stats, alive>>

Interrupt ==
  /\ Faults /\ phase \in {"reading", "merging", "summarising"}
  /\ phase' = "aborting" /\ Log(<<"I", next, phase>>)
  /\ UNCHANGED <<next, futures, status, seg, temp, tx, view, stats, alive>>
(* rollback, cancel what hasn't been started, wait for the rest *)
Abort ==
  /\ phase = "aborting" /\ phase' = "waiting" /\ tx' = <<>>
  /\ status' = [b \in 1..NB |-> IF status[b] = "queued" /\ b \notin Running THEN "cancelled" ELSE status[b]]
  /\ UNCHANGED <<next, futures, seg, temp, view, stats, alive, hist>>
Aborted ==
  /\ phase = "waiting" /\ \A b \in 1..NB : Finished(b) \/ status[b] = "none"
  /\ phase' = "failed" /\ temp' = FALSE /\ Log(<<"A">>)
  /\ UNCHANGED <<next, futures, status, seg, tx, view, stats, alive>>
Crash ==
  /\ Faults /\ phase \notin {"crashed", "done", "failed"}
  /\ phase' = "crashed" /\ alive' = FALSE /\ tx' = <<>> /\ Log(<<"X", next, phase>>)
  /\ UNCHANGED <<next, futures, status, seg, temp, view, stats>>

Next == Submit \/ Collect \/ (\E b \in 1..NB : Complete(b) \/ TaskFails(b)) \/ Drained \/ Merge \/ Commit \/ CleanUp
        \/ Interrupt \/ Abort \/ Aborted \/ Crash
Fair == WF_vars(Submit \/ Collect \/ (\E b \in 1..NB : Complete(b)) \/ Drained \/ Merge \/ Commit \/ CleanUp \/ Abort \/ Aborted)
Spec == Init /\ [][Next]_vars /\ Fair

------------------------------------------------------------------------------
(* C01, C02: whatever the order of completion *)
ExactInversion == phase \in {"cleaning", "done"} => view = New
(* C04 *)
OldOrNew == view \in {Old, New} /\ stats = view
NothingLost == phase = "failed" => view = Old
TempRemoved == phase \in {"done", "failed"} => ~temp
NoWriterAfterCleanup == ~temp => \A b \in 1..NB : status[b] # "queued"
EachBatchOnce == phase = "done" => Len(seg) = NB
BoundedQueue == Cardinality({b \in 1..NB : status[b] = "queued"}) <= W + 1
Terminates == <>(phase \in {"done", "failed", "crashed"})

EmitSchedule == ~(Emit /\ phase \in {"done", "failed", "crashed"}) \/ PrintT("SCHED " \o ToJson(hist))
NoHist == <<phase, next, futures, status, seg, temp, tx, view, stats, alive>>
=============================================================================
