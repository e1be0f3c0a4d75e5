------------------------------ MODULE SxTrace -------------------------------
(***************************************************************************)
(* Recorded histories of a StackExchange corpus.                           *)
(*  [k |-> "add", dump, exc, may, must, intx, docs]   docs: everything,    *)
(*     through a new session; may/must as in PlainCorpusTrace              *)
(*  [k |-> "get", how, keys, got, intx]  retrieval in the session          *)
(*  [k |-> "reader", at, got]   all documents by another session, whose    *)
(*     first read was after step `at`                                      *)
(* An observed document has the parts doc, idx (features), tab (table row),*)
(* html (markers of the strings shown).                                    *)
(***************************************************************************)
EXTENDS SxOps, Json, SequencesExt

Traces == JsonDeserialize("trace.json")
VARIABLES t, l

RECURSIVE After(_, _)
(* what is stored after step i *)
After(tr, i) == IF i = 0 THEN NoData
                ELSE LET s == tr.steps[i]
                     IN IF s.k = "add" /\ s.stored = 1 THEN Add(After(tr, i - 1), s.dump) ELSE After(tr, i - 1)

Adds(tr, i) == {j \in 1..(i - 1) : tr.steps[j].k = "add"}
Before(tr, i) == IF Adds(tr, i) = {} THEN <<>> ELSE tr.steps[MaxOf(Adds(tr, i))].docs

Key(d) == <<d.doc.site, d.doc.id>>
Deleted(n, del) == IF n = 0 THEN del ELSE n
Bag(s) == [x \in SetOf(s) |-> Cardinality({i \in DOMAIN s : s[i] = x})]
BagOf(S, F(_)) == LET V == {F(c) : c \in S} IN [v \in V |-> Cardinality({c \in S : F(c) = v})]

DocOK(tr, S, d) ==
  LET k == Key(d)
      p == S.posts[k]
      del == tr.deleted
      name == Name(S, k[1], p.owner)
      C == CommentsOn(S, k)
      who(c) == Deleted(Name(S, k[1], S.comments[c].user), del)
      D == d.doc
      T == d.tab
      X == d.idx
      between(tags) == TagsNow(S, k) \subseteq SetOf(tags) /\ SetOf(tags) \subseteq TagsEver(S, k) /\ Distinct(tags)
      Shown == {QuestionTitle(S, k), p.lic} \cup (IF p.body = 0 THEN {} ELSE SetOf(p.shown))
               \cup {S.comments[c].text : c \in C} \cup {S.comments[c].lic : c \in C}
               \cup (IF p.owner # 0 THEN {name} ELSE {})
               \cup {Name(S, k[1], S.comments[c].user) : c \in {x \in C : S.comments[x].user # 0}}
  IN Violated({
      <<"content", D.title = p.title /\ D.body = p.body /\ D.type = p.type /\ D.date = p.date>>,
      <<"author", D.name = Deleted(name, del)>>,
      <<"tags", between(D.tags)>>,
      <<"comments", Bag(D.comments) = BagOf(C, LAMBDA c : <<who(c), S.comments[c].text>>)>>,
      <<"features-text", X.post = (IF p.title = 0 THEN <<>> ELSE tr.tokens[p.title]) \o p.text /\ X.code = p.code>>,
      <<"features-authors", X.by = <<Deleted(name, del)>> /\ SetOf(X.commenting) = {who(c) : c \in C}>>,
      (* word by word, in the order in which the comments are listed *)
      <<"features-comments", X.comment = FlattenSeq([j \in DOMAIN D.comments |-> tr.tokens[D.comments[j][2]]])>>,
      <<"features-tags", between(X.tags) /\ SetOf(X.tags) = SetOf(D.tags)>>,
      <<"features-site", X.site = <<k[1]>> /\ X.type = <<p.type>> /\ X.extra = 0>>,
      <<"features-date", /\ X.day = <<p.date[1], p.date[2], p.date[3], 0, 0, 0, 0>>
                         /\ X.month = <<p.date[1], p.date[2], 1, 0, 0, 0, 0>>
                         /\ X.year = <<p.date[1], 1, 1, 0, 0, 0, 0>>>>,
      <<"table", /\ T.site = k[1] /\ T.id = k[2] /\ T.owner = p.owner /\ T.name = name /\ T.lic = p.lic
                 /\ T.type = p.type /\ T.body = p.body /\ T.parent = p.parent /\ T.link = 1>>,
      <<"table-title", T.title = QuestionTitle(S, k)>>,
      <<"table-tags", between(T.tags)>>,
      <<"table-comments", Bag(T.comments) = BagOf(C, LAMBDA c :
            <<Name(S, k[1], S.comments[c].user), S.comments[c].text, S.comments[c].lic>>)>>,
      <<"html", LET m == SetOf(d.html) IN
            /\ (Shown \cup TagsNow(S, k)) \ {0} \subseteq m
            /\ m \subseteq Shown \cup TagsEver(S, k)>>})

KeysIn(tr, i) == {<<d.key, Key(d)>> : d \in UNION {SetOf(tr.steps[j].docs) : j \in Adds(tr, i + 1)}}

AllOK(tr, i, S, docs) ==
  LET know == {j \in DOMAIN docs : Key(docs[j]) \in Documents(S)}
  IN {<<"documents", /\ {Key(docs[j]) : j \in DOMAIN docs} = Documents(S)
                     /\ Cardinality(Documents(S)) = Len(docs)>>,
      <<"keys-stable", \A a, b \in KeysIn(tr, i) : (a[1] = b[1]) <=> (a[2] = b[2])>>}
     \cup {<<x, FALSE>> : x \in UNION {DocOK(tr, S, docs[j]) : j \in know}}

Find(docs, k) == docs[CHOOSE j \in DOMAIN docs : docs[j].key = k]

Bad(tr, i) ==
  LET s == tr.steps[i]
  IN CASE s.k = "add" ->
       Violated(AllOK(tr, i, After(tr, i), s.docs)
                \cup {<<"fails-only-for-a-reason", s.exc # "" => s.may > 0>>,
                      <<"failure-is-reported", s.exc = "" => s.must = 0>>,
                      <<"failure-keeps-the-corpus", s.exc # "" /\ s.stored = 0 => SetOf(s.docs) = SetOf(Before(tr, i))>>,
                      <<"failure-stores-nothing", s.stored = 1 => s.exc = "" \/ s.may = 2>>,
                      <<"session-left-outside-of-transactions", s.intx = 0>>})
     [] s.k = "get" ->
       LET D == Before(tr, i)
           part(d) == CASE s.how = "html" -> d.html [] s.how = "table" -> d.tab [] OTHER -> d.doc
       IN Violated({<<"retrieves-by-key", [j \in DOMAIN s.got |-> s.got[j][1]] = s.keys>>,
                    <<"retrieves-the-document", \A j \in DOMAIN s.got : s.got[j][2] = part(Find(D, s.got[j][1]))>>,
                    <<"session-left-outside-of-transactions", s.intx = 0>>})
     [] s.k = "reader" -> Violated({<<"one-version", SetOf(s.got) = {<<d.key, d.doc>> : d \in SetOf(Before(tr, s.at + 1))}>>})
     [] OTHER -> {"unknown-step"}

Named(S) == {"C22:" \o x : x \in S}
Report(a, b) == LET bad == Bad(Traces[a], b)
                IN IF bad = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson(<<a, b, Named(bad)>>))
Init == t \in DOMAIN Traces /\ l = 0
Next == l < Len(Traces[t].steps) /\ l' = l + 1 /\ t' = t /\ Report(t, l')
Spec == Init /\ [][Next]_<<t, l>>
=============================================================================
