----------------------------- MODULE TweetsTrace -----------------------------
(***************************************************************************)
(* Recorded histories of a corpus of tweets.                               *)
(*  [k |-> "collect", tweets, users, tags, mentions, keys, docs, intx]     *)
(*     docs: everything afterwards, through a new session                  *)
(*  [k |-> "get", how, keys, got, intx]   retrieval in the session         *)
(*  [k |-> "reader", at, got]   all documents by another session, whose    *)
(*     first read was after step `at`                                      *)
(*  [k |-> "index", ok, got]    <<tweet, features>> of the indexed corpus  *)
(*  [k |-> "refused", what, exc, same]   opening something else            *)
(* An observed document has the parts id, doc, idx, html.                  *)
(***************************************************************************)
EXTENDS TwOps, Json

Traces == JsonDeserialize("trace.json")
VARIABLES t, l

RECURSIVE After(_, _)
After(tr, i) == IF i = 0 THEN Nothing
                ELSE LET s == tr.steps[i]
                         S == After(tr, i - 1)
                     IN IF s.k = "collect"
                        THEN [tweets |-> S.tweets \cup SetOf(s.tweets), users |-> S.users \cup SetOf(s.users),
                              tags |-> S.tags \cup SetOf(s.tags), mentions |-> S.mentions \cup SetOf(s.mentions)]
                        ELSE S

Collects(tr, i) == {j \in 1..(i - 1) : tr.steps[j].k = "collect"}
Before(tr, i) == IF Collects(tr, i) = {} THEN <<>> ELSE tr.steps[MaxOf(Collects(tr, i))].docs

FeaturesOK(S, id, X) ==
  {<<"words", X.words = Words(S, id)>>,
   <<"features-tweets", SetOf(X.ids) = IdFeatures(S, id)>>,
   <<"features-names", SetOf(X.texts) = TextFeatures(S, id)>>,
   <<"features-times", SetOf(X.times) = Times(Latest(S.tweets, id).date)>>}

DocOK(S, d) ==
  LET id == d.id
      o == Latest(S.tweets, id)
      D == d.doc
  IN Violated(FeaturesOK(S, id, d.idx)
     \cup {<<"latest-version", D.text = o.text /\ D.at = o.at /\ D.user = o.user>>,
           <<"latest-profile", D.name = Name(S, o.user)>>,
           <<"collections", SetOf(D.labels) = Labels(S, id)>>,
           <<"html", d.html = 1>>})

AllOK(S, keys, docs) ==
  {<<"documents", SetOf(keys) = Documents(S) /\ Distinct(keys) /\ keys = [j \in DOMAIN docs |-> docs[j].id]>>}
  \cup {<<x, FALSE>> : x \in UNION {DocOK(S, docs[j]) : j \in {i \in DOMAIN docs : docs[i].id \in Documents(S)}}}

Find(docs, k) == docs[CHOOSE j \in DOMAIN docs : docs[j].id = k]

Bad(tr, i) ==
  LET s == tr.steps[i]
      S == After(tr, i)
      D == Before(tr, i)
  IN CASE s.k = "collect" -> Violated(AllOK(S, s.keys, s.docs) \cup {<<"session-left-outside-of-transactions", s.intx = 0>>})
     [] s.k = "get" ->
          Violated({<<"retrieves-by-key", [j \in DOMAIN s.got |-> s.got[j][1]] = s.keys>>,
                    <<"retrieves-the-document", \A j \in DOMAIN s.got :
                        LET d == Find(D, s.got[j][1]) IN s.got[j][2] = IF s.how = "html" THEN d.html ELSE d.doc>>,
                    <<"session-left-outside-of-transactions", s.intx = 0>>})
     [] s.k = "reader" -> Violated({<<"one-version", s.got = [j \in DOMAIN Before(tr, s.at + 1) |->
                                        <<Before(tr, s.at + 1)[j].id, Before(tr, s.at + 1)[j].doc>>]>>})
     [] s.k = "index" ->
          Violated({<<"indexing-works", s.ok = 1>>}
                   \cup IF s.ok = 0 THEN {}
                        ELSE {<<"indexed-documents", {g[1] : g \in SetOf(s.got)} = Documents(S) /\ Len(s.got) = Cardinality(Documents(S))>>}
                             \cup {<<"indexed-" \o x, FALSE>> : x \in UNION {
                                  Violated(FeaturesOK(S, g[1], [g[2] EXCEPT !.words = Words(S, g[1])])
                                           \cup {<<"words", SetOf(g[2].words) = SetOf(Words(S, g[1]))>>})
                                  : g \in {h \in SetOf(s.got) : h[1] \in Documents(S)}}})
     [] s.k = "refused" -> Violated({<<"refuses-other-databases", s.exc # "" /\ (s.what # "other" => s.exc = "ValueError")>>,
                                     <<"refusing-changes-nothing", s.same = 1>>})
     [] OTHER -> {"unknown-step"}

Named(S) == {"C26:" \o x : x \in S}
Report(a, b) == LET bad == Bad(Traces[a], b)
                IN IF bad = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson(<<a, b, Named(bad)>>))
Init == t \in DOMAIN Traces /\ l = 0
Next == l < Len(Traces[t].steps) /\ l' = l + 1 /\ t' = t /\ Report(t, l')
Spec == Init /\ [][Next]_<<t, l>>
=============================================================================
