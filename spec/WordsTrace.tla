------------------------------ MODULE WordsTrace ------------------------------
(***************************************************************************)
(* Recorded texts and what became of them.                                 *)
(*  [k |-> "words", in, got]     the words of a text                       *)
(*  [k |-> "post", in, got]      the words of a post in social media       *)
(*  [k |-> "time", d, got]       minute, hour, day, month, year            *)
(***************************************************************************)
EXTENDS WordOps, Json

Traces == JsonDeserialize("trace.json")
VARIABLES t, l

(* down to the start of the unit; the last part is the offset from UTC *)
Rounded(d) == <<<<d[1], d[2], d[3], d[4], d[5], 0, 0, d[8]>>, <<d[1], d[2], d[3], d[4], 0, 0, 0, d[8]>>,
                <<d[1], d[2], d[3], 0, 0, 0, 0, d[8]>>, <<d[1], d[2], 1, 0, 0, 0, 0, d[8]>>, <<d[1], 1, 1, 0, 0, 0, 0, d[8]>>>>

Bad(s) == CASE s.k = "words" -> Violated({<<"words", s.got = WordsOf(s.in)>>})
            [] s.k = "post" -> Violated({<<"post-words", s.got = PostWordsOf(s.in)>>})
            [] s.k = "time" -> Violated({<<"times", s.got = Rounded(s.d)>>})
            [] OTHER -> {"unknown-step"}

Named(S) == {"C27:" \o x : x \in S}
Report(a, b) == LET bad == Bad(Traces[a].steps[b])
                IN IF bad = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson(<<a, b, Named(bad)>>))
Init == t \in DOMAIN Traces /\ l = 0
Next == l < Len(Traces[t].steps) /\ l' = l + 1 /\ t' = t /\ Report(t, l')
Spec == Init /\ [][Next]_<<t, l>>
=============================================================================
