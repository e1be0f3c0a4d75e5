--------------------------- MODULE IndexRunTrace ---------------------------
(***************************************************************************)
(* Recorded runs of index() under faults.  Database contents are given by  *)
(* names: "old" is the content before the run, "new" what an undisturbed   *)
(* run makes of it (checked by itself with InversionTrace and ModelTrace). *)
(* The steps of a trace refine IndexRun: the committed content (view)      *)
(* starts as "old", may become "new" once, and nothing else.               *)
(***************************************************************************)
EXTENDS Prelude, Json

Traces == JsonDeserialize("trace.json")
VARIABLES t, l, view, phase

(*
 steps  [k |-> "read", view]            another session looks at the database during the run
        [k |-> "end", outcome "done"/"failed"/"crashed", session (what the running session sees), view, temp (number
               of files left)]
        [k |-> "edit", ok, visible]     an edit by the session of the run, or by a new one after a crash
        [k |-> "refused", ok]           a forbidden edit is still refused
        [k |-> "retry", view, outcome, temp]
*)
Bad(s, v, p) ==
  CASE s.k = "read" ->
         Violated({<<"C04:reader-sees-old-or-new", s.view \in {"old", "new"}>>,
                   <<"C04:never-back-to-old", v = "new" => s.view = "new">>})
    [] s.k = "end" ->
         Violated({<<"C04:old-or-new-afterwards", s.view \in {"old", "new"}>>,
                   <<"C04:never-back-to-old", v = "new" => s.view = "new">>,
                   <<"C04:success-is-the-new-index", s.outcome = "done" => s.view = "new">>,
                   <<"C04:fault-before-the-commit-changes-nothing", s.outcome = "failed" /\ s.before = 1 => s.view = "old">>,
                   <<"C04:session-agrees", s.outcome # "crashed" => s.session = s.view>>,
                   <<"C04:fault-is-reported", s.fault = 1 => s.outcome # "done">>,
                   <<"C04:temporary-files-removed", s.outcome # "crashed" => s.temp = 0>>})
    [] s.k = "edit" ->
         Violated({<<"C04:session-usable", s.ok = 1>>, <<"C04:edit-visible", s.visible = 1>>})
    [] s.k = "refused" -> Violated({<<"C04:constraints-still-enforced", s.ok = 1>>})
    [] s.k = "retry" ->
         Violated({<<"C04:retry-succeeds", s.outcome = "done">>, <<"C04:retry-complete", s.view = "new">>,
                   <<"C04:retry-temporary-files", s.temp = 0>>})

Report(a, b) == LET bad == Bad(Traces[a].steps[b], view, phase)
                IN IF bad = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson(<<a, b, bad>>))

Init == t \in DOMAIN Traces /\ l = 0 /\ view = "old" /\ phase = "running"
Next ==
  /\ l < Len(Traces[t].steps) /\ l' = l + 1 /\ t' = t
  /\ Report(t, l')
  /\ LET s == Traces[t].steps[l']
     IN /\ view' = IF s.k \in {"read", "end", "retry"} /\ s.view = "new" THEN "new" ELSE view
        /\ phase' = IF s.k = "end" THEN s.outcome ELSE phase
Spec == Init /\ [][Next]_<<t, l, view, phase>>
=============================================================================
