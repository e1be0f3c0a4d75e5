------------------------------- MODULE TwOps --------------------------------
(***************************************************************************)
(* What a corpus of collected tweets holds (C26).                          *)
(*                                                                         *)
(* Tweets and users are observed again and again, at different times and   *)
(* in different collections, and the observations can arrive in any order. *)
(*   tweet [id, at, user, direct, label, text, toks, date, conv, reply,    *)
(*          retweet, quote, urls]   at: when it was retrieved              *)
(*   user  [id, at, name]                                                  *)
(* A url is <<address, host, internal>>.  0: no such tweet.                *)
(* Hashtags and mentions belong to the tweet, not to an observation of it. *)
(***************************************************************************)
EXTENDS Prelude

Nothing == [tweets |-> {}, users |-> {}, tags |-> {}, mentions |-> {}]

Of(T, id) == {o \in T : o.id = id}
Latest(T, id) == CHOOSE o \in Of(T, id) : \A p \in Of(T, id) : p.at <= o.at

(* only those collected on purpose are documents, not those they refer to *)
Documents(S) == {o.id : o \in {p \in S.tweets : p.direct = 1}}
Labels(S, id) == {o.label : o \in {p \in Of(S.tweets, id) : p.direct = 1}}

Name(S, u) == Latest(S.users, u).name
(* the name of the author of a tweet which is referred to, if it was ever seen *)
NamesBehind(S, id) == IF id = 0 \/ Of(S.tweets, id) = {} THEN {}
                      ELSE LET u == Latest(S.tweets, id).user
                           IN IF Of(S.users, u) = {} THEN {} ELSE {Name(S, u)}
Some(id) == IF id = 0 THEN {} ELSE {id}

External(o) == {u \in SetOf(o.urls) : u[3] = 0}

(* the features other than the words and the times; ids and strings in sets of their own *)
IdFeatures(S, id) ==
  LET o == Latest(S.tweets, id)
  IN IF o.retweet # 0 THEN {<<"retweeted_tweet_id", o.retweet>>}
     ELSE {<<"conversation_id", o.conv>>} \cup {<<"quoted_tweet_id", x>> : x \in Some(o.quote)}
          \cup {<<"replied_to_tweet_id", x>> : x \in Some(o.reply)}
TextFeatures(S, id) ==
  LET o == Latest(S.tweets, id)
      by == {<<"by", Name(S, o.user)>>}
  IN IF o.retweet # 0 THEN by \cup {<<"retweeted_user", x>> : x \in NamesBehind(S, o.retweet)}
     ELSE by \cup {<<"#", x[2]>> : x \in {y \in S.tags : y[1] = id}}
          \cup {<<"@", x[2]>> : x \in {y \in S.mentions : y[1] = id}}
          \cup {<<"url", u[1]>> : u \in External(o)}
          \cup {<<"domain", u[2]>> : u \in {v \in External(o) : v[2] # ""}}
          \cup {<<"quoted_user", x>> : x \in NamesBehind(S, o.quote)}
          \cup {<<"replied_to_user", x>> : x \in NamesBehind(S, o.reply)}
          \cup {<<"collection_label", x>> : x \in Labels(S, id)}
Words(S, id) == LET o == Latest(S.tweets, id) IN IF o.retweet # 0 THEN <<>> ELSE o.toks
(* minute, hour, day, month and year of its creation *)
Times(d) == {<<"created_minute", <<d[1], d[2], d[3], d[4], d[5], 0, 0>>>>, <<"created_hour", <<d[1], d[2], d[3], d[4], 0, 0, 0>>>>,
             <<"created_day", <<d[1], d[2], d[3], 0, 0, 0, 0>>>>, <<"created_month", <<d[1], d[2], 1, 0, 0, 0, 0>>>>,
             <<"created_year", <<d[1], 1, 1, 0, 0, 0, 0>>>>}
=============================================================================
