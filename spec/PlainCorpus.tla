---------------------------- MODULE PlainCorpus -----------------------------
(***************************************************************************)
(* A corpus of texts in a database, whose documents are replaced as a      *)
(* whole (C21).                                                            *)
(*                                                                         *)
(* A replacement pulls its texts one by one, can fail at every point (also *)
(* in the middle of pulling), be interrupted (same), or the process dies;  *)
(* meanwhile another session reads the documents one by one from the       *)
(* snapshot taken with the first one.                                      *)
(*                                                                         *)
(* hist is what the harness replays: start(texts), take, fail, crash,      *)
(* commit, open, step.                                                     *)
(***************************************************************************)
EXTENDS Prelude, Json

CONSTANTS Texts, MaxLen, MaxOps, MaxReads, Emit

Seqs == UNION {[1..n -> Texts] : n \in 0..MaxLen}
(* documents with unique keys; the keys themselves are the database's business *)
Docs(ts) == [i \in DOMAIN ts |-> <<i, ts[i]>>]

VARIABLES disk, work, todo, pc, ops, snap, got, reads, told, hist, asked
vars == <<disk, work, todo, pc, ops, snap, got, reads, told, hist, asked>>
NoSnap == <<<<0, 0>>>>

Init == /\ disk = <<>> /\ work = <<>> /\ todo = <<>> /\ pc = "idle" /\ ops = 0
        /\ snap = NoSnap /\ got = <<>> /\ reads = 0 /\ told = "ok" /\ hist = <<>> /\ asked = <<>>

Log(x) == hist' = Append(hist, x)
Reading == UNCHANGED <<snap, got, reads>>

Start == /\ pc = "idle" /\ ops < MaxOps /\ snap = NoSnap
         /\ \E ts \in Seqs : todo' = ts /\ asked' = ts /\ Log(<<"start", ts>>)
         /\ pc' = "work" /\ work' = <<>> /\ ops' = ops + 1 /\ told' = "running"
         /\ Reading /\ UNCHANGED disk
Take == /\ pc = "work" /\ todo # <<>>
        /\ work' = Append(work, <<Len(work) + 1, Head(todo)>>) /\ todo' = Tail(todo)
        /\ Log(<<"take">>) /\ Reading /\ UNCHANGED <<disk, pc, ops, told, asked>>
Abort(how) == /\ pc = "work"
              /\ pc' = "idle" /\ work' = <<>> /\ todo' = <<>> /\ told' = how
              /\ Log(<<how>>) /\ Reading /\ UNCHANGED <<disk, ops, asked>>
Commit == /\ pc = "work" /\ todo = <<>>
          /\ disk' = work /\ work' = <<>> /\ pc' = "idle" /\ told' = "ok"
          /\ Log(<<"commit">>) /\ Reading /\ UNCHANGED <<todo, ops, asked>>

Open == /\ snap = NoSnap /\ reads < MaxReads /\ pc = "work"
        /\ snap' = disk /\ got' = <<>> /\ reads' = reads + 1
        /\ Log(<<"open">>) /\ UNCHANGED <<disk, work, todo, pc, ops, told, asked>>
Step == /\ snap # NoSnap /\ Len(got) < Len(snap)
        /\ got' = Append(got, snap[Len(got) + 1])
        /\ Log(<<"step">>) /\ UNCHANGED <<disk, work, todo, pc, ops, snap, reads, told, asked>>
Close == /\ snap # NoSnap /\ Len(got) = Len(snap)
         /\ snap' = NoSnap /\ got' = <<>>
         /\ Log(<<"close">>) /\ UNCHANGED <<disk, work, todo, pc, ops, reads, told, asked>>

Next == Start \/ Take \/ Abort("fail") \/ Abort("crash") \/ Commit \/ Open \/ Step \/ Close
Spec == Init /\ [][Next]_vars

Finished == pc = "idle" /\ ops = MaxOps /\ snap = NoSnap
EmitRuns == Finished /\ Emit => PrintT("RUN " \o ToJson(hist))

(* C21 *)
Whole == told = "ok" /\ ops > 0 => disk = Docs(asked)
AllOrNothing == [][disk' # disk => pc = "work" /\ pc' = "idle" /\ told' = "ok" /\ disk' = Docs(asked)]_vars
UniqueKeys == Distinct([i \in DOMAIN disk |-> disk[i][1]])
OneVersion == snap # NoSnap => \A i \in DOMAIN got : got[i] = snap[i]
=============================================================================
