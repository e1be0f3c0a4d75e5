------------------------------- MODULE Tweets -------------------------------
(***************************************************************************)
(* Observations of tweets and users arriving in any order, with the tables *)
(* of the latest versions kept up to date one observation at a time (C26). *)
(* What the corpus says depends on what was observed only, not on the      *)
(* order; documents never go away, and what a tweet refers to is only a    *)
(* document once it is collected itself.                                   *)
(***************************************************************************)
EXTENDS TwOps

CONSTANTS Ids, Users, Times3, MaxSeen

Obs == {[id |-> i, at |-> a, user |-> u, direct |-> d, label |-> "l", text |-> "", toks |-> <<a>>, date |-> <<>>, conv |-> i,
         reply |-> r, retweet |-> w, quote |-> 0, urls |-> <<>>]
        : i \in Ids, a \in Times3, u \in Users, d \in {0, 1}, r \in {0, 1}, w \in {0, 2}}
UserObs == {[id |-> u, at |-> a, name |-> n] : u \in Users, a \in Times3, n \in {"p", "q"}}

VARIABLES S, latest, userLatest, docs, seen
vars == <<S, latest, userLatest, docs, seen>>

Init == S = Nothing /\ latest = <<>> /\ userLatest = <<>> /\ docs = {} /\ seen = 0

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
(* who wrote a tweet never changes, nor what it refers to *)
Consistent(o) == \A p \in Of(S.tweets, o.id) : /\ p.at # o.at /\ p.user = o.user
                                               /\ p.reply = o.reply /\ p.retweet = o.retweet
SeeTweet(o) == /\ seen < MaxSeen /\ Consistent(o) /\ o.id \notin {o.reply, o.retweet} /\ (o.reply = 0 \/ o.retweet = 0)
               /\ Of(S.users, o.user) # {}
               /\ S' = [S EXCEPT !.tweets = @ \cup {o}]
               /\ latest' = IF o.id \in DOMAIN latest /\ latest[o.id].at > o.at THEN latest ELSE Put(latest, o.id, o)
               /\ docs' = IF o.direct = 1 THEN docs \cup {o.id} ELSE docs
               /\ seen' = seen + 1 /\ UNCHANGED userLatest
SeeUser(o) == /\ seen < MaxSeen /\ (\A p \in Of(S.users, o.id) : p.at # o.at)
              /\ S' = [S EXCEPT !.users = @ \cup {o}]
              /\ userLatest' = IF o.id \in DOMAIN userLatest /\ userLatest[o.id].at > o.at THEN userLatest ELSE Put(userLatest, o.id, o)
              /\ seen' = seen + 1 /\ UNCHANGED <<latest, docs>>
Next == (\E o \in Obs : SeeTweet(o)) \/ (\E o \in UserObs : SeeUser(o))
Spec == Init /\ [][Next]_vars

LatestAgree == /\ DOMAIN latest = {o.id : o \in S.tweets} /\ \A i \in DOMAIN latest : latest[i] = Latest(S.tweets, i)
               /\ DOMAIN userLatest = {o.id : o \in S.users} /\ \A u \in DOMAIN userLatest : userLatest[u] = Latest(S.users, u)
DocumentsAgree == docs = Documents(S) /\ docs \subseteq DOMAIN latest
(* a retweet says nothing but what it points to *)
RetweetsPoint == \A i \in docs : latest[i].retweet # 0 =>
  /\ Words(S, i) = <<>> /\ IdFeatures(S, i) = {<<"retweeted_tweet_id", latest[i].retweet>>}
  /\ \A x \in TextFeatures(S, i) : x[1] \in {"by", "retweeted_user"}
(* everybody is called by one name only *)
OneName == \A i \in docs : \A x \in TextFeatures(S, i) :
  x[1] \in {"by", "replied_to_user", "retweeted_user"} => \E u \in DOMAIN userLatest : x[2] = userLatest[u].name
Grows == [][docs \subseteq docs']_vars
=============================================================================
