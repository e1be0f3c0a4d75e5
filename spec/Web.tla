-------------------------------- MODULE Web --------------------------------
(***************************************************************************)
(* The web server (C24): concurrent requests, each of which opens the      *)
(* index, runs one operation on it in a transaction (editing, or listing), *)
(* and answers with a page or a redirect, which the browser follows.  The  *)
(* index is released whatever happens to the request.                      *)
(***************************************************************************)
EXTENDS ModelOps

CONSTANTS Requests, Features, MaxId, Follow

Methods == {"GET", "POST"}
Edits == [name : {"delete"}, c : 0..MaxId, back : 0..MaxId] \cup [name : {"merge"}, c : 0..MaxId, d : 0..MaxId]
         \cup [name : {"create"}, fs : SUBSET Features] \cup [name : {"pin"}, c : 0..MaxId]
Views == [name : {"overview"}] \cup [name : {"cluster"}, c : 0..MaxId]
Indexes == {0, 1}

VARIABLES M, edits, req, pc, open, answer, seen
vars == <<M, edits, req, pc, open, answer, seen>>
NoReq == [method |-> "none"]
Models == {EmptyModel} \cup {[of |-> g, fp |-> {}, cp |-> {}] : g \in UNION {[S -> 0..1] : S \in SUBSET Features \ {{}}}}

Init == /\ M \in Models /\ edits = <<>>
        /\ req = [r \in Requests |-> NoReq] /\ pc = [r \in Requests |-> "idle"]
        /\ open = {} /\ answer = [r \in Requests |-> <<"none">>] /\ seen = [r \in Requests |-> {}]

Receive(r) ==
  /\ pc[r] = "idle" /\ req[r] = NoReq
  /\ \E x \in Indexes, m \in Methods, op \in Edits \cup Views :
       req' = [req EXCEPT ![r] = [method |-> m, index |-> x, op |-> op]]
  /\ pc' = [pc EXCEPT ![r] = "lookup"] /\ seen' = [seen EXCEPT ![r] = {M}]
  /\ UNCHANGED <<M, edits, open, answer>>

IsEdit(op) == op \in Edits
Finish(r, a) == answer' = [answer EXCEPT ![r] = a] /\ pc' = [pc EXCEPT ![r] = "release"]

(* the method is checked before the index is looked up, or after it *)
Lookup(r) ==
  /\ pc[r] = "lookup"
  /\ IF req[r].index # 0 THEN Finish(r, <<"notfound">>) /\ UNCHANGED open
     ELSE /\ open' = open \cup {r}
          /\ IF IsEdit(req[r].op) /\ req[r].method # "POST" THEN Finish(r, <<"notallowed">>)
             ELSE pc' = [pc EXCEPT ![r] = "handle"] /\ UNCHANGED answer
  /\ UNCHANGED <<M, edits, req, seen>>

Effect(op, X) ==
  CASE op.name = "delete" -> DeleteClusters(X, <<op.c>>)
    [] op.name = "merge" -> Merge(X, <<op.c, op.d>>)
    [] op.name = "create" -> Create(X, LET S == op.fs IN [i \in 1..Cardinality(S) |-> CHOOSE f \in S : Cardinality({g \in S : g < f}) = i - 1],
                                    1 + MaxOf({0} \cup Live(X)))
    [] op.name = "pin" -> PinClusters(X, <<op.c>>, TRUE)
Back(op, X) ==
  CASE op.name = "delete" -> <<"cluster", op.back>>
    [] op.name = "merge" -> <<"cluster", op.c>>
    [] op.name = "create" -> <<"cluster", 1 + MaxOf({0} \cup Live(X))>>
    [] op.name = "pin" -> <<"cluster", op.c>>

See(X) == seen' = [s \in Requests |-> IF pc[s] \in {"lookup", "handle"} THEN seen[s] \cup {X} ELSE seen[s]]

Handle(r) ==
  /\ pc[r] = "handle"
  /\ LET op == req[r].op
     IN IF IsEdit(op)
        THEN LET X == Effect(op, M)
             IN /\ Live(X) \subseteq 0..MaxId
                /\ M' = X /\ edits' = Append(edits, <<op, M, X>>) /\ See(X) /\ Finish(r, <<"redirect", Back(op, M), X>>)
        ELSE /\ Finish(r, CASE op.name = "overview" -> IF Live(M) = {} THEN <<"redirect", <<"details", 0>>, M>> ELSE <<"page", Live(M)>>
                            [] op.name = "cluster" -> IF op.c \in Live(M) THEN <<"page", Members(M, op.c)>> ELSE <<"notfound">>)
             /\ UNCHANGED <<M, edits, seen>>
  /\ UNCHANGED <<req, open>>

(* the operation is refused, the database is locked, rendering fails *)
Fail(r) == pc[r] = "handle" /\ Finish(r, <<"error">>) /\ UNCHANGED <<M, edits, req, open, seen>>

Release(r) == /\ pc[r] = "release" /\ open' = open \ {r} /\ pc' = [pc EXCEPT ![r] = "done"]
              /\ UNCHANGED <<M, edits, req, answer, seen>>

(* the browser follows the redirect *)
Browse(r) ==
  /\ Follow /\ pc[r] = "done" /\ answer[r][1] = "redirect" /\ answer[r][2][1] = "cluster"
  /\ req' = [req EXCEPT ![r] = [method |-> "GET", index |-> 0, op |-> [name |-> "cluster", c |-> answer[r][2][2]]]]
  /\ pc' = [pc EXCEPT ![r] = "lookup"] /\ seen' = [seen EXCEPT ![r] = {M}]
  /\ UNCHANGED <<M, edits, open, answer>>

Next == \E r \in Requests : Receive(r) \/ Lookup(r) \/ Handle(r) \/ Fail(r) \/ Release(r) \/ Browse(r)
Spec == Init /\ [][Next]_vars /\ \A r \in Requests : WF_vars(Lookup(r) \/ Handle(r) \/ Fail(r) \/ Release(r))

Running(r) == pc[r] \in {"handle", "release"}
Released == \A r \in open : Running(r)
AlwaysReleased == \A r \in Requests : (r \in open) ~> (r \notin open)
OnlyByPost == [][M' # M => \E r \in Requests : pc[r] = "handle" /\ req[r].method = "POST" /\ IsEdit(req[r].op) /\ M' = Effect(req[r].op, M)]_vars
OtherIndexes == \A r \in Requests : req[r] # NoReq /\ req[r].index # 0 /\ pc[r] = "done" => answer[r] = <<"notfound">>
(* what was answered was true at some time during the request *)
PagesAreTrue == \A r \in Requests : pc[r] \in {"release", "done"} =>
  CASE answer[r][1] = "page" -> \E X \in seen[r] :
         IF req[r].op.name = "overview" THEN answer[r][2] = Live(X) ELSE answer[r][2] = Members(X, req[r].op.c) /\ answer[r][2] # {}
    [] answer[r][1] = "notfound" -> req[r].index # 0 \/ \E X \in seen[r] : req[r].op.c \notin Live(X)
    [] OTHER -> TRUE
(* a redirect leads to a page which exists, unless the edit itself removed or never had it *)
RedirectsLead == \A r \in Requests : pc[r] = "release" /\ answer[r][1] = "redirect" /\ answer[r][2][1] = "cluster" =>
  \/ answer[r][2][2] \in Live(answer[r][3])
  \/ req[r].op.name # "create" \/ req[r].op.fs = {}
Applied == \A i \in DOMAIN edits : edits[i][3] = Effect(edits[i][1], edits[i][2])
Serial == \A i \in 1..(Len(edits) - 1) : edits[i + 1][2] = edits[i][3]
=============================================================================
