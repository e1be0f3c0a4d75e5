------------------------------- MODULE Schema -------------------------------
(***************************************************************************)
(* Opening databases of any version (C23).                                 *)
(*                                                                         *)
(* A supported old version is upgraded statement by statement in one       *)
(* transaction, which also notes the clusters whose statistics have to be  *)
(* computed; a second transaction computes them.  Whatever else is found   *)
(* is refused.  Sessions can fail or die at every statement, two of them   *)
(* can open the same database.                                             *)
(***************************************************************************)
EXTENDS Prelude

CONSTANTS Sessions, Versions, Opens
Current == 10
Supported == 4..9

(* columns and tables that arrived after version v *)
Parts == [cluster_stats |-> 4, pins |-> 7, summary_positions |-> 9, changed |-> 4, settings |-> 9]
PartsOf(v) == {p \in DOMAIN Parts : v > Parts[p]}

(* stats: do the statistics agree with the clusters? pending: are the clusters noted as changed? *)
Old(v) == [ver |-> v, index |-> TRUE, parts |-> PartsOf(v), triggers |-> v < Current, stats |-> v > 4, pending |-> FALSE,
           summary |-> v > 9, data |-> 1]
Foreign(v) == [ver |-> v, index |-> FALSE, parts |-> {}, triggers |-> FALSE, stats |-> FALSE, pending |-> FALSE,
               summary |-> FALSE, data |-> 2]

(* the statements of the upgrade from version v, in groups: before, schema, after *)
Before(v) == IF v <= 4 THEN <<<<"add", "cluster_stats">>>> ELSE <<>>
Before2(v) == IF v <= 7 THEN <<<<"add", "pins">>>> ELSE <<>>
Before3 == <<<<"add", "summary_positions">>>>
SchemaSteps == <<<<"create", "settings">>, <<"create", "changed">>, <<"triggers">>, <<"version">>>>
Post(v) == IF v <= 4 THEN <<<<"mark">>>> ELSE <<>>
Statements(v) == Before(v) \o Before2(v) \o Before3 \o SchemaSteps \o Post(v) \o <<<<"summary">>>>

VARIABLES disk, version, pc, work, todo, snap, lock, opens, first, out
vars == <<disk, version, pc, work, todo, snap, lock, opens, first, out>>
None == "none"

Init == /\ disk \in {Old(v) : v \in Versions} \cup {Foreign(v) : v \in Versions}
        /\ first = disk /\ version = 0 /\ lock = None
        /\ pc = [s \in Sessions |-> "closed"] /\ work = [s \in Sessions |-> disk] /\ todo = [s \in Sessions |-> <<>>]
        /\ snap = [s \in Sessions |-> 0] /\ opens = [s \in Sessions |-> 0] /\ out = [s \in Sessions |-> "none"]

Look(s) ==
  /\ pc[s] = "closed" /\ opens[s] < Opens
  /\ opens' = [opens EXCEPT ![s] = @ + 1]
  /\ IF ~disk.index \/ (disk.ver # Current /\ disk.ver \notin Supported)
     THEN /\ out' = [out EXCEPT ![s] = "refused"] /\ UNCHANGED <<pc, todo>>
     ELSE /\ out' = [out EXCEPT ![s] = "running"]
          /\ IF disk.ver = Current
             THEN pc' = [pc EXCEPT ![s] = "check"] /\ UNCHANGED todo
             ELSE pc' = [pc EXCEPT ![s] = "begin"] /\ todo' = [todo EXCEPT ![s] = Statements(disk.ver)]
  /\ UNCHANGED <<disk, version, work, snap, lock, first>>

Begin(s) ==
  /\ pc[s] = "begin" /\ lock = None /\ lock' = s
  /\ work' = [work EXCEPT ![s] = disk] /\ pc' = [pc EXCEPT ![s] = "migrate"]
  /\ UNCHANGED <<disk, version, todo, snap, opens, first, out>>

Applies(w, x) == x[1] = "add" => x[2] \notin w.parts
Apply(w, x) ==
  CASE x[1] \in {"add", "create"} -> [w EXCEPT !.parts = @ \cup {x[2]}]
    [] x[1] = "triggers" -> [w EXCEPT !.triggers = FALSE]
    [] x[1] = "version" -> [w EXCEPT !.ver = Current]
    [] x[1] = "mark" -> [w EXCEPT !.pending = TRUE]
    [] x[1] = "summary" -> [w EXCEPT !.summary = TRUE]

Fails(s) == pc' = [pc EXCEPT ![s] = "closed"] /\ out' = [out EXCEPT ![s] = "failed"]
            /\ lock' = IF lock = s THEN None ELSE lock

Migrate(s) ==
  /\ pc[s] = "migrate"
  /\ IF todo[s] = <<>>
     THEN /\ disk' = work[s] /\ version' = version + 1 /\ lock' = None /\ pc' = [pc EXCEPT ![s] = "check"]
          /\ UNCHANGED <<work, todo, out>>
     ELSE IF Applies(work[s], Head(todo[s]))
     THEN /\ work' = [work EXCEPT ![s] = Apply(@, Head(todo[s]))] /\ todo' = [todo EXCEPT ![s] = Tail(@)]
          /\ UNCHANGED <<disk, version, lock, pc, out>>
     ELSE (* somebody else upgraded it in the meantime *)
          Fails(s) /\ UNCHANGED <<disk, version, work, todo>>
  /\ UNCHANGED <<snap, opens, first>>

Check(s) ==
  /\ pc[s] = "check"
  /\ IF disk.pending THEN lock = None /\ lock' = s /\ pc' = [pc EXCEPT ![s] = "house"] /\ UNCHANGED out
     ELSE pc' = [pc EXCEPT ![s] = "closed"] /\ out' = [out EXCEPT ![s] = "open"] /\ UNCHANGED lock
  /\ UNCHANGED <<disk, version, work, todo, snap, opens, first>>
House(s) ==
  /\ pc[s] = "house" /\ lock = s
  /\ disk' = [disk EXCEPT !.stats = TRUE, !.pending = FALSE] /\ version' = version + 1 /\ lock' = None
  /\ pc' = [pc EXCEPT ![s] = "closed"] /\ out' = [out EXCEPT ![s] = "open"]
  /\ UNCHANGED <<work, todo, snap, opens, first>>

(* a failure, an interruption, or the death of the process; a lock that can't be had *)
Fault(s) == pc[s] # "closed" /\ Fails(s) /\ UNCHANGED <<disk, version, work, todo, snap, opens, first>>

Next == \E s \in Sessions : Look(s) \/ Begin(s) \/ Migrate(s) \/ Check(s) \/ House(s) \/ Fault(s)
Spec == Init /\ [][Next]_vars

(* C23 *)
DataKept == disk.data = first.data
RefusedUntouched == (~first.index \/ first.ver \notin Supported \cup {Current}) => disk = first /\ \A s \in Sessions : out[s] \in {"none", "refused"}
WholeVersions == \/ disk = first
                 \/ /\ disk.ver = Current /\ disk.parts = DOMAIN Parts /\ ~disk.triggers /\ disk.summary
NothingForgotten == disk.index /\ disk.ver = Current => disk.stats \/ disk.pending
OpenedIsRight == \A s \in Sessions : out[s] = "open" /\ Cardinality(Sessions) = 1 => disk.stats /\ disk.summary /\ ~disk.triggers
ReopeningChangesNothing == [][(first.ver = Current \/ (\E s \in Sessions : out[s] = "open" /\ pc[s] = "closed")) /\ ~disk.pending
                              => disk' = disk]_vars
=============================================================================
