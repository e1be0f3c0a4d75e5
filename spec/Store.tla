------------------------------- MODULE Store --------------------------------
(***************************************************************************)
(* Sessions editing one stored model.                                      *)
(*                                                                         *)
(* An edit runs in a transaction: it takes a snapshot with its first read, *)
(* the write lock with its first write (which fails if another session     *)
(* holds it, or committed since the snapshot), changes the rows one by     *)
(* one, brings the summaries of the changed clusters up to date one by one *)
(* (housekeeping), and commits.  At every point it can fail, be            *)
(* interrupted (both roll back), or the process can die.                   *)
(*                                                                         *)
(* Properties: C13 (all or nothing, sessions usable), C14 (serialisable).  *)
(***************************************************************************)
EXTENDS Prelude

CONSTANTS Sessions, F, C,      \* sessions, features, cluster ids
          MaxOps               \* operations per session

NoTx == [on |-> FALSE]
None == "none"

VARIABLES disk,      \* committed [of, sum]
          version,   \* number of commits
          tx,        \* session -> working copy
          lock,      \* session with the write lock
          pc, op, todo, changed, level, count,
          last       \* the last commit: [from, op]  (history)

vars == <<disk, version, tx, lock, pc, op, todo, changed, level, count, last>>

Summary(of) == [c \in {of[f] : f \in DOMAIN of} |-> {f \in DOMAIN of : of[f] = c}]
St(of) == [of |-> of, sum |-> Summary(of)]

Ops == {[name |-> "merge", a |-> a, b |-> b] : a, b \in C}
       \cup {[name |-> "create", f |-> f] : f \in F}
       \cup {[name |-> "delete", f |-> f] : f \in F}

NextId(of) == IF DOMAIN of = {} THEN 1 ELSE MaxOf({of[f] : f \in DOMAIN of}) + 1

(* what an operation does, running alone *)
Effect(of, o) ==
  CASE o.name = "merge" -> [f \in DOMAIN of |-> IF of[f] = o.b THEN o.a ELSE of[f]]
    [] o.name = "create" -> [f \in DOMAIN of \cup {o.f} |-> IF f = o.f THEN NextId(of) ELSE of[f]]
    [] o.name = "delete" -> [f \in DOMAIN of \ {o.f} |-> of[f]]

(* the rows it writes, as seen from a state: <<feature, cluster>>, cluster 0 for deleting *)
Rows(of, o) ==
  LET new == Effect(of, o)
  IN {<<f, IF f \in DOMAIN new THEN new[f] ELSE 0>> :
        f \in {g \in F : (g \in DOMAIN of) # (g \in DOMAIN new) \/ (g \in DOMAIN of /\ of[g] # new[g])}}

WriteRow(of, r) == IF r[2] = 0 THEN [f \in DOMAIN of \ {r[1]} |-> of[f]]
                   ELSE [f \in DOMAIN of \cup {r[1]} |-> IF f = r[1] THEN r[2] ELSE of[f]]
Touched(of, r) == (IF r[1] \in DOMAIN of THEN {of[r[1]]} ELSE {}) \cup (IF r[2] = 0 THEN {} ELSE {r[2]})

Init ==
  /\ \E of \in [F -> C] : disk = St(of)
  /\ version = 0 /\ lock = None
  /\ tx = [s \in Sessions |-> NoTx] /\ pc = [s \in Sessions |-> "idle"]
  /\ op = [s \in Sessions |-> None] /\ todo = [s \in Sessions |-> {}]
  /\ changed = [s \in Sessions |-> FALSE] /\ level = [s \in Sessions |-> 0] /\ count = [s \in Sessions |-> 0]
  /\ last = [from |-> disk, op |-> None]

Begin(s) ==
  /\ pc[s] = "idle" /\ count[s] < MaxOps
  /\ \E o \in Ops : op' = [op EXCEPT ![s] = o]
  /\ pc' = [pc EXCEPT ![s] = "reading"] /\ level' = [level EXCEPT ![s] = 1]
  /\ count' = [count EXCEPT ![s] = @ + 1]
  /\ UNCHANGED <<disk, version, tx, lock, todo, changed, last>>

(* the snapshot is taken by the first read *)
Read(s) ==
  /\ pc[s] = "reading"
  /\ tx' = [tx EXCEPT ![s] = [on |-> TRUE, snap |-> version, of |-> disk.of, sum |-> disk.sum, dirty |-> {}]]
  /\ todo' = [todo EXCEPT ![s] = Rows(disk.of, op[s])]
  /\ changed' = [changed EXCEPT ![s] = TRUE]
  /\ pc' = [pc EXCEPT ![s] = "writing"]
  /\ UNCHANGED <<disk, version, lock, op, level, count, last>>

CanWrite(s) == lock = s \/ (lock = None /\ tx[s].snap = version)

Write(s) ==
  /\ pc[s] = "writing" /\ todo[s] # {}
  /\ CanWrite(s)
  /\ lock' = s
  /\ \E r \in todo[s] :
       /\ tx' = [tx EXCEPT ![s].of = WriteRow(@, r), ![s].dirty = @ \cup Touched(tx[s].of, r)]
       /\ todo' = [todo EXCEPT ![s] = @ \ {r}]
  /\ UNCHANGED <<disk, version, pc, op, changed, level, count, last>>

(* somebody else is writing, or has written since *)
Busy(s) ==
  /\ pc[s] = "writing" /\ todo[s] # {} /\ ~CanWrite(s)
  /\ pc' = [pc EXCEPT ![s] = "failing"]
  /\ UNCHANGED <<disk, version, tx, lock, op, todo, changed, level, count, last>>

Written(s) ==
  /\ pc[s] = "writing" /\ todo[s] = {}
  /\ pc' = [pc EXCEPT ![s] = IF changed[s] THEN "house" ELSE "commit"]
  /\ UNCHANGED <<disk, version, tx, lock, op, todo, changed, level, count, last>>

House(s) ==
  /\ pc[s] = "house"
  /\ IF tx[s].dirty = {}
     THEN pc' = [pc EXCEPT ![s] = "commit"] /\ UNCHANGED tx
     ELSE \E c \in tx[s].dirty :
            LET members == {f \in DOMAIN tx[s].of : tx[s].of[f] = c}
            IN /\ tx' = [tx EXCEPT ![s].dirty = @ \ {c},
                           ![s].sum = IF members = {} THEN [x \in DOMAIN @ \ {c} |-> @[x]]
                                      ELSE [x \in DOMAIN @ \cup {c} |-> IF x = c THEN members ELSE @[x]]]
               /\ UNCHANGED pc
  /\ UNCHANGED <<disk, version, lock, op, todo, changed, level, count, last>>

Free(s) == lock' = IF lock = s THEN None ELSE lock
Idle(s) ==
  /\ pc' = [pc EXCEPT ![s] = "idle"] /\ tx' = [tx EXCEPT ![s] = NoTx] /\ todo' = [todo EXCEPT ![s] = {}]
  /\ changed' = [changed EXCEPT ![s] = FALSE] /\ level' = [level EXCEPT ![s] = 0]
  /\ Free(s)

Commit(s) ==
  /\ pc[s] = "commit"
  /\ IF lock = s
     THEN disk' = [of |-> tx[s].of, sum |-> tx[s].sum] /\ version' = version + 1 /\ last' = [from |-> disk, op |-> op[s]]
     ELSE UNCHANGED <<disk, version, last>>
  /\ Idle(s)
  /\ UNCHANGED <<op, count>>

(* a failure or interruption anywhere before the commit *)
Fault(s) ==
  /\ pc[s] \in {"reading", "writing", "house", "commit"}
  /\ pc' = [pc EXCEPT ![s] = "failing"]
  /\ UNCHANGED <<disk, version, tx, lock, op, todo, changed, level, count, last>>

Rollback(s) ==
  /\ pc[s] = "failing"
  /\ Idle(s)
  /\ UNCHANGED <<disk, version, op, count, last>>

(* the process dies; what another process of the same user sees is a new session *)
Crash(s) ==
  /\ pc[s] # "idle"
  /\ Idle(s)
  /\ UNCHANGED <<disk, version, op, count, last>>

Next == \E s \in Sessions :
  \/ Begin(s) \/ Read(s) \/ Write(s) \/ Busy(s) \/ Written(s) \/ House(s) \/ Commit(s) \/ Fault(s) \/ Rollback(s) \/ Crash(s)

Fair == \A s \in Sessions : WF_vars(Read(s) \/ Write(s) \/ Busy(s) \/ Written(s) \/ House(s) \/ Commit(s) \/ Rollback(s))
Spec == Init /\ [][Next]_vars /\ Fair

------------------------------------------------------------------------------
(* C13 *)
Consistent == disk.sum = Summary(disk.of)
UsableWhenIdle == \A s \in Sessions :
  pc[s] = "idle" => ~tx[s].on /\ lock # s /\ level[s] = 0 /\ ~changed[s]
(* C14: every commit is one whole operation applied to what was committed just before *)
Serial == version > 0 => disk.of = Effect(last.from.of, last.op)
CommitsAreOperations ==
  [][disk' # disk => \E s \in Sessions : pc[s] = "commit" /\ disk'.of = Effect(disk.of, op[s])]_vars
(* an operation which starts without anybody else around isn't refused *)
Finishes == \A s \in Sessions : (pc[s] # "idle") ~> (pc[s] = "idle")
=============================================================================
