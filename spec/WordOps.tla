------------------------------ MODULE WordOps -------------------------------
(***************************************************************************)
(* The words of a text (C27).  A text is a sequence of symbols: characters *)
(* by themselves, or named when they aren't ASCII.                         *)
(*                                                                         *)
(* A text is cut where Unicode sees word boundaries (UAX #29); blanks and  *)
(* an apostrophe following them at a boundary are dropped, and so are the  *)
(* pieces which are blank.  Case and the shape of quotes don't matter.     *)
(***************************************************************************)
EXTENDS Prelude, SequencesExt

Letters == {"a", "b", "e", "x", "h", "t", "p", "s", "i", "eacute"}
Hebrew == {"alef"}
Katakana == {"ka"}
Digits == {"5", "0", "three"}
MidLetter == {":"}
MidBoth == {".", "'"}
MidDigit == {","}
Joiners == {"_"}
Marks == {"acute", "dot"}
Lines == {"nl", "cr"}
Spaces == {" ", "wide"}
Blanks == Spaces \cup Lines \cup {"tab", "nbsp"}

(* straight quotes, lower case *)
Plain(x) == CASE x \in {"left", "right"} -> <<"'">>
              [] x \in {"open", "close"} -> <<"\"">>
              [] x = "A" -> <<"a">>
              [] x = "B" -> <<"b">>
              [] x = "H" -> <<"h">>
              [] x = "T" -> <<"t">>
              [] x = "P" -> <<"p">>
              [] x = "S" -> <<"s">>
              [] x = "Eacute" -> <<"eacute">>
              [] x = "Idot" -> <<"i", "dot">>
              [] OTHER -> <<x>>
Straight(s) == FoldLeft(LAMBDA out, x : out \o Plain(x), <<>>, s)

AHLetter == Letters \cup Hebrew

(* the symbol a place belongs to: marks belong to what they follow *)
RECURSIVE Base(_, _)
Base(s, j) == IF j >= 1 /\ s[j] \in Marks THEN Base(s, j - 1) ELSE j
RECURSIVE Beyond(_, _)
Beyond(s, j) == IF j <= Len(s) /\ s[j] \in Marks THEN Beyond(s, j + 1) ELSE j
At(s, j) == IF j \in DOMAIN s THEN s[j] ELSE "edge"

(* is there a word boundary between s[i] and s[i + 1]?  WB1 to WB13b, WB999 *)
Boundary(s, i) ==
  IF s = <<>> THEN FALSE
  ELSE IF i = 0 \/ i = Len(s) THEN TRUE
  ELSE
  LET here == s[i]
      q == s[i + 1]
      j == Base(s, i)
      p == At(s, j)
      pp == At(s, Base(s, j - 1))
      qq == At(s, Beyond(s, i + 2))
  IN CASE here = "cr" /\ q = "nl" -> FALSE
       [] here \in Lines \/ q \in Lines -> ~(here = "cr" /\ q = "nl")
       [] here \in Spaces /\ q \in Spaces -> FALSE
       [] q \in Marks -> FALSE
       [] p \in AHLetter /\ q \in AHLetter -> FALSE
       [] p \in AHLetter /\ q \in MidLetter \cup MidBoth /\ qq \in AHLetter -> FALSE
       [] pp \in AHLetter /\ p \in MidLetter \cup MidBoth /\ q \in AHLetter -> FALSE
       [] p \in Hebrew /\ q = "'" -> FALSE
       [] p \in Hebrew /\ q = "\"" /\ qq \in Hebrew -> FALSE
       [] pp \in Hebrew /\ p = "\"" /\ q \in Hebrew -> FALSE
       [] p \in Digits \cup AHLetter /\ q \in Digits \cup AHLetter -> FALSE
       [] pp \in Digits /\ p \in MidDigit \cup MidBoth /\ q \in Digits -> FALSE
       [] p \in Digits /\ q \in MidDigit \cup MidBoth /\ qq \in Digits -> FALSE
       [] p \in Katakana /\ q \in Katakana -> FALSE
       [] p \in AHLetter \cup Digits \cup Katakana \cup Joiners /\ q \in Joiners -> FALSE
       [] p \in Joiners /\ q \in AHLetter \cup Digits \cup Katakana -> FALSE
       [] OTHER -> TRUE

(* what is passed over at a boundary *)
RECURSIVE PastSpaces(_, _)
PastSpaces(s, i) == IF i < Len(s) /\ s[i + 1] \in Spaces THEN PastSpaces(s, i + 1) ELSE i
Past(s, i) == LET e == PastSpaces(s, i) IN IF At(s, e + 1) = "'" THEN e + 1 ELSE e

Blank(w) == \A j \in DOMAIN w : w[j] \in Blanks
Emit(out, w) == IF Blank(w) THEN out ELSE Append(out, w)

(* one step of the scan: place, where the current piece starts, the words so far *)
Scan(s, z) == IF ~Boundary(s, z.at) THEN [z EXCEPT !.at = @ + 1]
              ELSE LET e == Past(s, z.at)
                   IN [at |-> IF e > z.at THEN e ELSE z.at + 1, from |-> e, out |-> Emit(z.out, SubSeq(s, z.from + 1, z.at))]
Begin == [at |-> 0, from |-> 0, out |-> <<>>]
(* every step goes on by one symbol at least *)
Finish(s, z) == LET end == FoldLeft(LAMBDA y, k : IF y.at > Len(s) THEN y ELSE Scan(s, y), z, [k \in 1..(Len(s) + 1) |-> k])
                IN Emit(end.out, SubSeq(s, end.from + 1, Len(s)))
WordsOf(s) == LET t == TLCEval(Straight(s)) IN Finish(t, Begin)

(* without links, mentions and hashtags, each up to the next blank *)
StartsWith(s, i, w) == i + Len(w) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(w) - 1) = w
Http == <<"h", "t", "t", "p">>
Starts(s, i) == \/ s[i] \in {"#", "@"}
                \/ StartsWith(s, i, Http \o <<":", "/", "/">>)
                \/ StartsWith(s, i, Http \o <<"s", ":", "/", "/">>)
Uncited(s) ==
  FoldLeft(LAMBDA y, i : IF y.inside /\ s[i] \notin Blanks THEN y
                         ELSE IF Starts(s, i) THEN [y EXCEPT !.inside = TRUE]
                         ELSE [inside |-> FALSE, out |-> Append(y.out, s[i])],
           [inside |-> FALSE, out |-> <<>>], [i \in DOMAIN s |-> i]).out
PostWordsOf(s) == LET t == TLCEval(Straight(s))
                      u == TLCEval(Uncited(t))
                  IN Finish(u, Begin)
=============================================================================
