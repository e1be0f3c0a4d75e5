------------------------------- MODULE Words --------------------------------
(***************************************************************************)
(* The scan which turns a text into words (C27), on every text of up to    *)
(* MaxLen symbols.                                                         *)
(***************************************************************************)
EXTENDS WordOps, TLC

CONSTANTS Alphabet, MaxLen

Texts == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
VARIABLES text, z
vars == <<text, z>>
Init == text \in Texts /\ z = Begin
Next == z.at <= Len(Straight(text)) /\ z' = Scan(Straight(text), z) /\ UNCHANGED text
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

RECURSIVE Joined(_)
Joined(ws) == IF ws = <<>> THEN <<>> ELSE ws[1] \o Joined(Tail(ws))
RECURSIVE Without(_, _)
Without(s, D) == IF s = <<>> THEN <<>> ELSE (IF s[1] \in D THEN <<>> ELSE <<s[1]>>) \o Without(Tail(s), D)

Once == z.at = 0
(* nothing is lost or put into another order but blanks and apostrophes *)
Complete == Once => Without(Joined(WordsOf(text)), Blanks \cup {"'"}) = Without(Straight(text), Blanks \cup {"'"})
(* no word is empty or contains a blank *)
Solid == Once => \A j \in DOMAIN WordsOf(text) : LET w == WordsOf(text)[j] IN w # <<>> /\ \A i \in DOMAIN w : w[i] \notin Blanks
(* a word by itself is that word *)
Stable == Once => \A j \in DOMAIN WordsOf(text) : LET w == WordsOf(text)[j] IN WordsOf(w) = <<w>>
(* what stands between two blanks doesn't depend on what else is in the text *)
Local == Once => \A j \in DOMAIN text : text[j] \in Blanks =>
  WordsOf(text) = WordsOf(SubSeq(text, 1, j - 1)) \o WordsOf(SubSeq(text, j + 1, Len(text)))
(* the scan only ever appends, and what it ends with are the words *)
Agrees == z.at > Len(Straight(text)) => Emit(z.out, SubSeq(Straight(text), z.from + 1, Len(Straight(text)))) = WordsOf(text)
Appends == [][Len(z.out) <= Len(z'.out) /\ SubSeq(z'.out, 1, Len(z.out)) = z.out]_vars
(* removing links, mentions and hashtags only takes whole words away from their ends *)
Posts == Once => /\ PostWordsOf(Straight(text)) = PostWordsOf(text)
                 /\ (\A j \in DOMAIN text : text[j] \notin {"#", "@", "h", "H"}) => PostWordsOf(text) = WordsOf(text)
                 /\ \A j \in DOMAIN PostWordsOf(text) : \A i \in DOMAIN PostWordsOf(text)[j] : PostWordsOf(text)[j][i] \notin {"#", "@"}
=============================================================================
