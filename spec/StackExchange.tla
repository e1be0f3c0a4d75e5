--------------------------- MODULE StackExchange ----------------------------
(***************************************************************************)
(* Adding dumps of sites row by row to tables with surrogate document keys,*)
(* in a transaction, with failures (C22).  The tables must always say what *)
(* SxOps says about the dumps added so far, and keys never change.         *)
(***************************************************************************)
EXTENDS SxOps

CONSTANTS Sites, Ids, MaxAdds

Row(i, ty, par, tg, ow) == [id |-> i, type |-> ty, parent |-> par, title |-> IF ty = 1 THEN i ELSE 0, tags |-> tg, owner |-> ow,
                            body |-> 1, text |-> <<>>, code |-> <<>>, lic |-> 0, date |-> <<>>]
PostRows == {Row(i, 1, 0, tg, ow) : i \in Ids, tg \in {<<>>, <<1>>}, ow \in {0, 1}}
            \cup {Row(i, 2, p, <<>>, 0) : i \in Ids, p \in Ids} \cup {Row(i, 3, 0, <<1>>, 0) : i \in Ids}
Dumps == {[site |-> s, posts |-> ps, comments |-> cs, users |-> us] :
            s \in Sites, ps \in {<<p>> : p \in PostRows} \cup {<<p, q>> : p \in PostRows, q \in {Row(1, 1, 0, <<2>>, 1)}},
            cs \in {<<>>, <<[id |-> 1, post |-> 1, text |-> 1, user |-> 1, lic |-> 0]>>},
            us \in {<<>>, <<[id |-> 1, name |-> 1]>>, <<[id |-> 1, name |-> 2]>>}}

VARIABLES disk,    \* tables: post: <<key, site, row>>, tag: <<site, id, tag>>, comment: <<site, row>>, user: <<site, row>>
          work, todo, pc, adds, truth, cur, keys
vars == <<disk, work, todo, pc, adds, truth, cur, keys>>
Empty == [post |-> {}, tag |-> {}, comment |-> {}, user |-> {}]

Init == disk = Empty /\ work = Empty /\ todo = <<>> /\ pc = "idle" /\ adds = 0 /\ truth = NoData /\ cur = <<>> /\ keys = {}

Start == /\ pc = "idle" /\ adds < MaxAdds
         /\ \E d \in Dumps :
              /\ cur' = d
              /\ todo' = [i \in 1..Len(d.posts) |-> <<"post", d.posts[i]>>]
                         \o [i \in 1..Len(d.comments) |-> <<"comment", d.comments[i]>>]
                         \o [i \in 1..Len(d.users) |-> <<"user", d.users[i]>>]
         /\ work' = disk /\ pc' = "work" /\ adds' = adds + 1
         /\ UNCHANGED <<disk, truth, keys>>

KeyFor(T, s, i) == LET old == {r[1] : r \in {x \in T.post : x[2] = s /\ x[3].id = i}}
                   IN IF old # {} THEN CHOOSE k \in old : TRUE
                      ELSE IF T.post = {} THEN 1 ELSE MaxOf({x[1] : x \in T.post}) + 1

Insert(T, s, kind, r) ==
  CASE kind = "post" /\ r.type \in {1, 2} ->
         [T EXCEPT !.post = {x \in @ : ~(x[2] = s /\ x[3].id = r.id)} \cup {<<KeyFor(T, s, r.id), s, r>>},
                   !.tag = @ \cup {<<s, r.id, g>> : g \in SetOf(r.tags)}]
    [] kind = "comment" -> [T EXCEPT !.comment = {x \in @ : ~(x[1] = s /\ x[2].id = r.id)} \cup {<<s, r>>}]
    [] kind = "user" -> [T EXCEPT !.user = {x \in @ : ~(x[1] = s /\ x[2].id = r.id)} \cup {<<s, r>>}]
    [] OTHER -> T

Step == /\ pc = "work" /\ todo # <<>>
        /\ work' = Insert(work, cur.site, Head(todo)[1], Head(todo)[2]) /\ todo' = Tail(todo)
        /\ UNCHANGED <<disk, pc, adds, truth, cur, keys>>
Commit == /\ pc = "work" /\ todo = <<>>
          /\ disk' = work /\ pc' = "idle" /\ truth' = Add(truth, cur)
          /\ keys' = keys \cup {<<x[1], x[2], x[3].id>> : x \in work.post}
          /\ UNCHANGED <<work, todo, adds, cur>>
Fail == /\ pc = "work" /\ pc' = "idle" /\ work' = Empty /\ todo' = <<>> /\ UNCHANGED <<disk, adds, truth, cur, keys>>

Next == Start \/ Step \/ Commit \/ Fail
Spec == Init /\ [][Next]_vars

Natural(x) == <<x[2], x[3].id>>
SameDocuments == {Natural(x) : x \in disk.post} = Documents(truth)
                 /\ \A x \in disk.post : truth.posts[Natural(x)] = x[3]
TablesAgree == \A x \in disk.post :
  LET k == Natural(x)
      q == IF x[3].parent = 0 THEN x[3].id ELSE x[3].parent
      tags == {g[3] : g \in {y \in disk.tag : y[1] = x[2] /\ y[2] = q}}
      parents == {y \in disk.post : y[2] = x[2] /\ y[3].id = x[3].parent}
      names == {u[2].name : u \in {y \in disk.user : y[1] = x[2] /\ y[2].id = x[3].owner}}
  IN /\ TagsNow(truth, k) \subseteq tags /\ tags \subseteq TagsEver(truth, k)
     /\ (IF x[3].title # 0 THEN x[3].title ELSE IF parents = {} THEN 0 ELSE (CHOOSE y \in parents : TRUE)[3].title)
          = QuestionTitle(truth, k)
     /\ (IF names = {} THEN 0 ELSE CHOOSE n \in names : TRUE) = Name(truth, k[1], x[3].owner)
     /\ {y[2].id : y \in {z \in disk.comment : z[1] = x[2] /\ z[2].post = x[3].id}} = {c[2] : c \in CommentsOn(truth, k)}
(* a key is for one post for ever, a post has one key for ever *)
KeysStable == \A a, b \in keys : (a[1] = b[1]) <=> (<<a[2], a[3]>> = <<b[2], b[3]>>)
=============================================================================
