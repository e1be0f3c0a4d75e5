-------------------------- MODULE PlainCorpusTrace --------------------------
(***************************************************************************)
(* Recorded histories of a plain text corpus.  Texts are numbered.         *)
(*  [k |-> "replace", texts, exc, may, intx, post]                         *)
(*       may = 1: something was done to it which may make it fail;         *)
(*       may = 2: ... after the point where it may have been stored already*)
(*       post: <<key, text>> of all documents afterwards, by a new session *)
(*  [k |-> "get", how, keys, got]    retrieval: docs, html, table, pickled *)
(*  [k |-> "all", how, got]          iteration: keys, docs, iter           *)
(*  [k |-> "reader", at, got]        all documents, read by another session*)
(*       whose first read was after step `at`                              *)
(***************************************************************************)
EXTENDS Prelude, Json

Traces == JsonDeserialize("trace.json")
VARIABLES t, l

Replaces(tr, i) == {j \in 1..(i - 1) : tr.steps[j].k = "replace"}
Disk(tr, i) == IF Replaces(tr, i) = {} THEN <<>> ELSE tr.steps[MaxOf(Replaces(tr, i))].post

TextsOf(p) == [i \in DOMAIN p |-> p[i][2]]
KeysOf(p) == [i \in DOMAIN p |-> p[i][1]]
Lookup(p, k) == p[CHOOSE i \in DOMAIN p : p[i][1] = k]

Bad(tr, i) ==
  LET s == tr.steps[i]
      D == Disk(tr, i)
  IN CASE s.k = "replace" ->
       Violated({<<"exactly-the-texts", s.exc = "" => TextsOf(s.post) = s.texts>>,
                 <<"unique-keys", Distinct(KeysOf(s.post))>>,
                 <<"failure-keeps-the-documents", s.exc # "" =>
                      s.post = D \/ (s.may = 2 /\ TextsOf(s.post) = s.texts)>>,
                 <<"fails-only-for-a-reason", s.exc # "" => s.may > 0>>,
                 <<"failure-is-reported", s.exc = "" => s.must = 0>>,
                 <<"session-left-outside-of-transactions", s.intx = 0>>})
     [] s.k = "get" ->
       Violated({<<"retrieves-by-key", /\ KeysOf(s.got) = s.keys
                                       /\ \A j \in DOMAIN s.got : s.got[j] = Lookup(D, s.keys[j])>>,
                 <<"session-left-outside-of-transactions", s.intx = 0>>})
     [] s.k = "all" -> Violated({<<"iterates-everything", IF s.how = "keys" THEN s.got = KeysOf(D) ELSE s.got = D>>,
                                 <<"session-left-outside-of-transactions", s.intx = 0>>})
     [] s.k = "reader" -> Violated({<<"one-version", s.got = Disk(tr, s.at + 1)>>})
     [] OTHER -> {"unknown-step"}

Named(S) == {"C21:" \o x : x \in S}
Report(a, b) == LET bad == Bad(Traces[a], b)
                IN IF bad = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson(<<a, b, Named(bad)>>))
Init == t \in DOMAIN Traces /\ l = 0
Next == l < Len(Traces[t].steps) /\ l' = l + 1 /\ t' = t /\ Report(t, l')
Spec == Init /\ [][Next]_<<t, l>>
=============================================================================
