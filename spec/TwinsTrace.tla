----------------------------- MODULE TwinsTrace ----------------------------
(***************************************************************************)
(* The same calls made by sessions with the same seed, in processes which  *)
(* differ in workers, schedule, hash seed and the state of the global      *)
(* random numbers (C15).                                                   *)
(*                                                                         *)
(* trace: steps = <<[op, runs]>>*, runs = <<[call, result, state]>>*: what *)
(* each of the sessions was asked, answered, and committed.                *)
(***************************************************************************)
EXTENDS Prelude, Json
Traces == JsonDeserialize("trace.json")
VARIABLES t, l

Bad(tr, i) ==
  LET r == tr.steps[i].runs
  IN Violated({<<"C15:same-call", \A j \in DOMAIN r : r[j].call = r[1].call>>,
               <<"C15:same-result", \A j \in DOMAIN r : r[j].result = r[1].result>>,
               <<"C15:same-model", \A j \in DOMAIN r : r[j].state = r[1].state>>})

(* once the histories differ, so will what follows *)
First(tr, i) == \A j \in 1..(i - 1) : Bad(tr, j) = {}
Report(a, b) == LET bad == Bad(Traces[a], b)
                IN IF bad = {} \/ ~First(Traces[a], b) THEN TRUE ELSE PrintT("FAIL " \o ToJson(<<a, b, bad>>))
Init == t \in DOMAIN Traces /\ l = 0
Next == l < Len(Traces[t].steps) /\ l' = l + 1 /\ t' = t /\ Report(t, l')
Spec == Init /\ [][Next]_<<t, l>>
=============================================================================
