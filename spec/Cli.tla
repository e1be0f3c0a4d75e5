-------------------------------- MODULE Cli --------------------------------
(***************************************************************************)
(* The commands (C25), run by several people at once on the same files:    *)
(*   create  replaces the corpus with the decoded lines of a text file     *)
(*   index   replaces the content of the index with that of the corpus     *)
(*   model   makes a new model (a transaction of its own) and refines it   *)
(*   export  writes the model to a file                                    *)
(* A command can fail at every point.  The index can also be the file of   *)
(* somebody else, which nothing may touch.                                 *)
(*                                                                         *)
(* A document is a number, and is also the feature it contains; a model is *)
(* a function from features to clusters.                                   *)
(***************************************************************************)
EXTENDS Prelude

CONSTANTS Words, MaxLines, MaxCommands, People

(* a line of a text file: its kind and what it says, 0 for nothing *)
Lines == [kind : {"raw", "quoted"}, says : Words \cup {0}] \cup [kind : {"undecodable"}, says : {0}]
TextFiles == UNION {[1..n -> Lines] : n \in 0..MaxLines}
Readable(text) == \A i \in DOMAIN text : text[i].kind # "undecodable"
Decoded(text) == LET kept == SelectSeq(text, LAMBDA x : x.says # 0) IN [i \in DOMAIN kept |-> kept[i].says]

NoIndex == [is |-> "missing", docs |-> <<>>, model |-> <<>>]
Foreign == [is |-> "foreign", docs |-> <<>>, model |-> <<>>]
Commands == [name : {"create"}, text : TextFiles] \cup [name : {"index"}]
            \cup [name : {"model"}, clusters : 1..2, restart : BOOLEAN, yes : BOOLEAN, iters : 0..1] \cup [name : {"export"}]

VARIABLES corpus, index, out, run, done, corpora, models
vars == <<corpus, index, out, run, done, corpora, models>>
NoRun == [name |-> "none"]
Idle == [cmd |-> NoRun, pc |-> "idle", has |-> <<>>, from |-> 0, mfrom |-> 0]

(* corpora, models: everything committed so far, for the properties only *)
Init == /\ corpus = <<>> /\ index \in {NoIndex, Foreign} /\ out = <<>> /\ run = [p \in People |-> Idle]
        /\ done = 0 /\ corpora = <<corpus>> /\ models = <<index.model>>

Start(p) == /\ run[p].pc = "idle" /\ done < MaxCommands /\ done' = done + 1
            /\ \E c \in Commands : run' = [run EXCEPT ![p] = [cmd |-> c, pc |-> "check", has |-> <<>>, from |-> Len(corpora), mfrom |-> Len(models)]]
            /\ UNCHANGED <<corpus, index, out, corpora, models>>
To(p, pc, has) == run' = [run EXCEPT ![p].pc = pc, ![p].has = has]
End(p) == run' = [run EXCEPT ![p] = Idle]

(* what has to be refused *)
Check(p) ==
  LET c == run[p].cmd IN
  /\ run[p].pc = "check"
  /\ IF \/ c.name \in {"model", "export"} /\ index.is # "index"
        \/ c.name = "index" /\ index.is = "foreign"
        \/ c.name = "model" /\ index.model # <<>> /\ c.restart /\ ~c.yes
     THEN End(p)
     ELSE To(p, CASE c.name = "create" -> "read" [] c.name = "index" -> "work"
                  [] c.name = "model" -> IF index.model = <<>> \/ c.restart THEN "init" ELSE "refine"
                  [] c.name = "export" -> "read", <<>>)
  /\ UNCHANGED <<corpus, index, out, done, corpora, models>>

(* the lines of a text are taken one by one, all of them are replaced at once *)
Read(p) ==
  LET c == run[p].cmd
      n == Len(run[p].has) IN
  /\ run[p].pc = "read" /\ c.name = "create"
  /\ IF n = Len(c.text) THEN To(p, "commit", run[p].has)
     ELSE IF c.text[n + 1].kind = "undecodable" THEN End(p)
     ELSE To(p, "read", Append(run[p].has, c.text[n + 1]))
  /\ UNCHANGED <<corpus, index, out, done, corpora, models>>
Replace(p) ==
  /\ run[p].pc = "commit" /\ run[p].cmd.name = "create"
  /\ corpus' = Decoded(run[p].has) /\ corpora' = Append(corpora, corpus') /\ End(p)
  /\ UNCHANGED <<index, out, done, models>>

(* the index reads a corpus as of one time, and is replaced at once; its model is kept *)
Work(p) == /\ run[p].pc = "work" /\ To(p, "commit", corpus)
           /\ UNCHANGED <<corpus, index, out, done, corpora, models>>
Index(p) == /\ run[p].pc = "commit" /\ run[p].cmd.name = "index" /\ index.is # "foreign"
            /\ index' = [index EXCEPT !.is = "index", !.docs = run[p].has]
            /\ End(p) /\ UNCHANGED <<corpus, out, done, corpora, models>>

(* features which are gone from the index still are in the model *)
Fresh(c) == {m \in [SetOf(index.docs) -> 1..c.clusters] : Cardinality({m[f] : f \in DOMAIN m}) = Min2(c.clusters, Cardinality(DOMAIN m))}
Initialise(p) == /\ run[p].pc = "init"
                 /\ \E m \in Fresh(run[p].cmd) : index' = [index EXCEPT !.model = m] /\ models' = Append(models, m)
                 /\ To(p, "refine", <<>>) /\ UNCHANGED <<corpus, out, done, corpora>>
Refine(p) ==
  /\ run[p].pc = "refine"
  /\ IF run[p].cmd.iters = 0 THEN UNCHANGED <<index, models>>
     ELSE \E m \in [DOMAIN index.model -> 1..2] :
            /\ Cardinality({m[f] : f \in DOMAIN m}) = Min2(run[p].cmd.clusters, Cardinality(DOMAIN m))
            /\ index' = [index EXCEPT !.model = m] /\ models' = Append(models, m)
  /\ End(p) /\ UNCHANGED <<corpus, out, done, corpora>>

(* the file is opened before anything is read, and written at once as far as this is about *)
Empty(p) == /\ run[p].pc = "read" /\ run[p].cmd.name = "export"
            /\ out' = <<"partial">> /\ To(p, "commit", index.model)
            /\ UNCHANGED <<corpus, index, done, corpora, models>>
Write(p) == /\ run[p].pc = "commit" /\ run[p].cmd.name = "export"
            /\ out' = <<"rows", run[p].has>> /\ End(p)
            /\ UNCHANGED <<corpus, index, done, corpora, models>>

Fail(p) == /\ run[p].pc \notin {"idle"} /\ End(p) /\ UNCHANGED <<corpus, index, out, done, corpora, models>>

Next == \E p \in People : Start(p) \/ Check(p) \/ Read(p) \/ Replace(p) \/ Work(p) \/ Index(p) \/ Initialise(p) \/ Refine(p)
                          \/ Empty(p) \/ Write(p) \/ Fail(p)
Spec == Init /\ [][Next]_vars

(* the corpus only ever is a complete text *)
CorpusChanges == [][corpus' # corpus => \E p \in People : LET c == run[p].cmd IN
                       c.name = "create" /\ Readable(c.text) /\ corpus' = Decoded(c.text)]_vars
(* what is indexed was the corpus at some time during the command *)
IndexChanges == [][index'.docs # index.docs => \E p \in People :
                     run[p].cmd.name = "index" /\ \E i \in run[p].from..Len(corpora) : index'.docs = corpora[i]]_vars
(* only the command for models changes models, and replaces what it knows of only when told to; it keeps to the number of clusters *)
ModelChanges == [][index'.model # index.model => \E p \in People : LET c == run[p].cmd
                                                                      m == index'.model IN
                     c.name = "model"
                     /\ (run[p].pc = "init" /\ ~c.yes => \E i \in run[p].mfrom..Len(models) : models[i] = <<>>)
                     /\ Cardinality({m[f] : f \in DOMAIN m}) = Min2(c.clusters, Cardinality(DOMAIN m))]_vars
(* what was exported was the model at some time during the command *)
ExportsAreTrue == [][out' # out /\ out'[1] = "rows" => \E p \in People :
                       run[p].cmd.name = "export" /\ \E i \in run[p].mfrom..Len(models) : out'[2] = models[i]]_vars
ForeignIsKept == [][index.is = "foreign" => index' = index]_vars
OthersUntouched == [][\A p \in People : (run[p].pc # "idle" /\ run'[p] # run[p]) =>
                        /\ run[p].cmd.name # "create" => corpus' = corpus
                        /\ run[p].cmd.name # "export" => out' = out
                        /\ run[p].cmd.name \notin {"index", "model"} => index' = index]_vars
=============================================================================
