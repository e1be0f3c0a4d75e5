------------------------------- MODULE SxOps --------------------------------
(***************************************************************************)
(* What a corpus of StackExchange sites holds after adding dumps (C22).    *)
(*                                                                         *)
(* A dump: [site, posts, comments, users], each a sequence of rows:        *)
(*   post    [id, type, parent, title, body, text, code, shown, owner,     *)
(*            lic, tags, date]     type 1: question, 2: answer, else other *)
(*   comment [id, post, text, user, lic]                                   *)
(*   user    [id, name]                                                    *)
(* Strings are numbered, 0: absent.  Rows are known by site and id: a      *)
(* later row replaces an earlier one.                                      *)
(***************************************************************************)
EXTENDS Prelude

NoData == [posts |-> <<>>, ever |-> <<>>, comments |-> <<>>, users |-> <<>>]

Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d

(* the last row of each id counts *)
PutRows(f, site, rows) ==
  LET new == [i \in {r.id : r \in SetOf(rows)} |-> rows[MaxOf({j \in DOMAIN rows : rows[j].id = i})]]
  IN [k \in DOMAIN f \cup {<<site, i>> : i \in DOMAIN new} |->
        IF k[1] = site /\ k[2] \in DOMAIN new THEN new[k[2]] ELSE f[k]]
(* but all of the tags it ever had are remembered *)
AddPosts(S, site, rows) ==
  LET docs == SelectSeq(rows, LAMBDA r : r.type \in {1, 2})
      now(k) == IF k[1] = site THEN UNION {SetOf(docs[j].tags) : j \in {x \in DOMAIN docs : docs[x].id = k[2]}} ELSE {}
  IN [S EXCEPT !.posts = PutRows(@, site, docs),
               !.ever = [k \in DOMAIN @ \cup {<<site, r.id>> : r \in SetOf(docs)} |-> Get(@, k, {}) \cup now(k)]]

Add(S, d) == LET P == AddPosts(S, d.site, d.posts)
             IN [P EXCEPT !.comments = PutRows(@, d.site, d.comments), !.users = PutRows(@, d.site, d.users)]

Documents(S) == DOMAIN S.posts

(* everything is looked up in the site of the post *)
Name(S, site, user) == IF user = 0 THEN 0 ELSE Get(S.users, <<site, user>>, [name |-> 0]).name
Question(S, k) == IF S.posts[k].parent = 0 THEN k ELSE <<k[1], S.posts[k].parent>>
(* tags of a question which were removed later may linger (a documented limitation) *)
TagsNow(S, k) == LET q == Question(S, k) IN IF q \in DOMAIN S.posts THEN SetOf(S.posts[q].tags) ELSE {}
TagsEver(S, k) == Get(S.ever, Question(S, k), {})
QuestionTitle(S, k) == IF S.posts[k].title # 0 THEN S.posts[k].title
                       ELSE IF S.posts[k].parent = 0 THEN 0
                       ELSE Get(S.posts, <<k[1], S.posts[k].parent>>, [title |-> 0]).title
CommentsOn(S, k) == {c \in DOMAIN S.comments : c[1] = k[1] /\ S.comments[c].post = k[2]}
=============================================================================
