--------------------------- MODULE PassagesTrace ----------------------------
(***************************************************************************)
(* Positional queries of the real code, evaluated against PassageOps.      *)
(*                                                                         *)
(* trace: docs   = <<key, fields>>*, fields = <<field, kind ("seq"/"set"), *)
(*                 values>>*; document number = position in docs           *)
(*        batch  = batch size of the indexing run                          *)
(*        steps:                                                           *)
(*   [k |-> "passages", clauses, w, res]   clauses: <<field, value>>* each *)
(*        res = <<doc, <<field, first, last, n>>*>>*                       *)
(*   [k |-> "colloc", field, values, w, res, tq, tw]                       *)
(*        res = <<field, value, near, total>>*                             *)
(*   [k |-> "windows", docs, feats, w, sample, res]                        *)
(*        res = <<doc, key, <<field, <<value, windows>>*>>*>>*             *)
(*   [k |-> "render", asked = <<doc, passages>>*, o, sample, res]          *)
(*        res = <<doc, key, <<field, texts>>*, sets>>*                     *)
(* Missing values are 0.                                                   *)
(***************************************************************************)
EXTENDS PassageOps, Json

Traces == JsonDeserialize("trace.json")
VARIABLES t, l

N(tr) == Len(tr.docs)
HasF(tr, d, f) == \E x \in SetOf(tr.docs[d][2]) : x[1] = f
FieldOf(tr, d, f) == CHOOSE x \in SetOf(tr.docs[d][2]) : x[1] = f
Sq(tr, d, f) == IF HasF(tr, d, f) /\ FieldOf(tr, d, f)[2] = "seq" THEN FieldOf(tr, d, f)[3] ELSE <<>>
BatchOf(tr, d) == (d - 1) \div tr.batch
Fields(tr) == UNION {{x[1] : x \in SetOf(tr.docs[d][2])} : d \in 1..N(tr)}

(* the part of the clauses concerned with a field *)
ClausesIn(cl, f) ==
  LET parts == [i \in DOMAIN cl |-> {x[2] : x \in {y \in SetOf(cl[i]) : y[1] = f}}]
  IN SelectSeq(parts, LAMBDA p : p # {})
RECURSIVE SumSeq(_, _)
Weight(tr, f, V, b) ==
  LET ds == {d \in 1..N(tr) : BatchOf(tr, d) = b}
  IN SumOver([d \in ds |-> Cardinality(Offs(Sq(tr, d, f), V))], ds)
SumSeq(s, k) == IF k = 0 THEN 0 ELSE s[k] + SumSeq(s, k - 1)

ExpectDoc(tr, s, d, f, cl, order) ==
  {<<f, r[1], r[2], r[3]>> : r \in Passages(Qualify(Sq(tr, d, f), cl, s.w, order), s.w)}
GotDoc(s, d, f) == {p \in UNION {SetOf(s.res[i][2]) : i \in {i \in DOMAIN s.res : s.res[i][1] = d}} : p[1] = f}

PassagesOK(tr, s) ==
  \A f \in Fields(tr) :
    LET cl == ClausesIn(s.clauses, f)
    IN IF cl = <<>> THEN \A d \in 1..N(tr) : GotDoc(s, d, f) = {}
       ELSE \A b \in {BatchOf(tr, d) : d \in 1..N(tr)} :
              LET ds == {d \in 1..N(tr) : BatchOf(tr, d) = b}
                  orders == IF Len(cl) <= 2 THEN {<<>>}
                            ELSE Orders(cl, [i \in DOMAIN cl |-> Weight(tr, f, cl[i], b)])
              IN \E o \in orders : \A d \in ds : GotDoc(s, d, f) = ExpectDoc(tr, s, d, f, cl, o)

Colloc(tr, s, v, d) == Cardinality(Near(Len(Sq(tr, d, s.field)), Offs(Sq(tr, d, s.field), SetOf(s.values)), s.w)
                                   \cap Offs(Sq(tr, d, s.field), {v}))
AllDocs(tr, f(_)) == SumOver([d \in 1..N(tr) |-> f(d)], 1..N(tr))
Others(tr, s) == (UNION {SetOf(Sq(tr, d, s.field)) : d \in 1..N(tr)}) \ (SetOf(s.values) \cup {0})
CollocOK(tr, s) ==
  LET got == SetOf(s.res)
  IN {<<"C06:only-other-features-of-the-field",
         \A r \in got : r[1] = s.field /\ r[2] \in Others(tr, s)>>,
      <<"C06:each-once", Cardinality({r[2] : r \in got}) = Len(s.res)>>,
      <<"C06:near", \A v \in Others(tr, s) :
           LET n == AllDocs(tr, LAMBDA d : Colloc(tr, s, v, d))
               m == {r \in got : r[2] = v}
           IN IF m = {} THEN n = 0 ELSE \A r \in m : r[3] = n>>,
      <<"C06:totals", \A r \in got : r[4] = AllDocs(tr, LAMBDA d : Cardinality(Offs(Sq(tr, d, s.field), {r[2]})))>>,
      <<"C06:query-total", s.tq = AllDocs(tr, LAMBDA d : Cardinality(Offs(Sq(tr, d, s.field), SetOf(s.values))))>>,
      <<"C06:window-total", s.tw = AllDocs(tr, LAMBDA d :
           Cardinality(Near(Len(Sq(tr, d, s.field)), Offs(Sq(tr, d, s.field), SetOf(s.values)), s.w)))>>}

NoNone(x) == SelectSeq(x, LAMBDA v : v # 0)
(* the windows of the occurrences of v in a sequence, in order *)
RECURSIVE WindowsFrom(_, _, _, _)
WindowsFrom(d, v, w, i) ==
  IF i > Len(d) THEN <<>>
  ELSE IF d[i] = v THEN <<Slice(d, i - 1 - w, i - 1 + w)>> \o WindowsFrom(d, v, w, i + 1)
  ELSE WindowsFrom(d, v, w, i + 1)

WindowsOK(tr, s) ==
  LET docs == {r[1] : r \in SetOf(s.res)}
      Want(d, f, v) == IF ~HasF(tr, d, f) \/ v \notin SetOf(FieldOf(tr, d, f)[3]) THEN "none"
                       ELSE FieldOf(tr, d, f)[2]
      Entry(r, f, v) == {x \in UNION {SetOf(y[2]) : y \in {z \in SetOf(r[3]) : z[1] = f}} : x[1] = v}
      Shown(x) == IF s.text = 1 THEN NoNone(x) ELSE x
  IN {<<"C07:documents", /\ Cardinality(docs) = Len(s.res) /\ docs \subseteq SetOf(s.docs)
                         /\ Len(s.res) = IF s.sample < 0 THEN Cardinality(SetOf(s.docs))
                                         ELSE Min2(s.sample, Cardinality(SetOf(s.docs)))>>,
      <<"C07:keys", \A r \in SetOf(s.res) : r[2] = tr.docs[r[1]][1]>>,
      <<"C07:only-requested", \A r \in SetOf(s.res) : \A y \in SetOf(r[3]) : \A x \in SetOf(y[2]) :
           \E i \in DOMAIN s.feats : s.feats[i] = <<y[1], x[1]>>>>,
      <<"C07:concordances", \A r \in SetOf(s.res) : \A q \in SetOf(s.feats) :
           LET e == Entry(r, q[1], q[2])
               want == Want(r[1], q[1], q[2])
           IN CASE want = "none" -> \A x \in e : x[2] = <<>>
                [] want = "set" -> {x[2] : x \in e} = {<<>>}
                [] want = "seq" -> LET ws == WindowsFrom(Sq(tr, r[1], q[1]), q[2], s.w, 1)
                                   IN {x[2] : x \in e} = {[i \in DOMAIN ws |-> Shown(ws[i])]}>>}

RenderOK(tr, s) ==
  LET docs == {r[1] : r \in SetOf(s.res)}
      Asked(d) == s.asked[CHOOSE i \in DOMAIN s.asked : s.asked[i][1] = d][2]
      Texts(d, f) == LET ps == SelectSeq(Asked(d), LAMBDA p : p[1] = f)
                     IN [i \in DOMAIN ps |-> Slice(Sq(tr, d, f), ps[i][2] - s.o, ps[i][3] + s.o)]
      AskedFields(d) == {p[1] : p \in SetOf(Asked(d))}
      all == {a[1] : a \in SetOf(s.asked)}
  IN {<<"C07:rendered-documents", /\ Cardinality(docs) = Len(s.res) /\ docs \subseteq all
                         /\ Len(s.res) = IF s.sample < 0 THEN Cardinality(all) ELSE Min2(s.sample, Cardinality(all))>>,
      <<"C07:keys", \A r \in SetOf(s.res) : r[2] = tr.docs[r[1]][1]>>,
      <<"C07:rendered-passages", \A r \in SetOf(s.res) : r[1] \in all =>
           /\ {x[1] : x \in SetOf(r[3])} = AskedFields(r[1])
           /\ \A x \in SetOf(r[3]) : x[2] = Texts(r[1], x[1])>>,
      <<"C07:rendered-fields", \A r \in SetOf(s.res) :
           {<<x[1], SetOf(x[2])>> : x \in SetOf(r[4])}
              = {<<x[1], SetOf(x[3])>> : x \in {y \in SetOf(tr.docs[r[1]][2]) : y[2] = "set"}}>>}

Bad(tr, i) ==
  LET s == tr.steps[i]
  IN Violated(IF s.exc # "" THEN {<<s.prop \o ":works", FALSE>>}
              ELSE CASE s.k = "passages" ->
                          {<<"C05:passages", PassagesOK(tr, s)>>,
                           <<"C05:documents", /\ Cardinality({r[1] : r \in SetOf(s.res)}) = Len(s.res)
                                              /\ \A r \in SetOf(s.res) : r[1] \in 1..N(tr)>>,
                           <<"C05:each-once", \A r \in SetOf(s.res) : Distinct(r[2])>>,
                           <<"C05:in-order", \A r \in SetOf(s.res) : \A a, b \in DOMAIN r[2] :
                                a < b /\ r[2][a][1] = r[2][b][1] => r[2][a][3] < r[2][b][2]>>}
                     [] s.k = "colloc" -> CollocOK(tr, s)
                     [] s.k = "windows" -> WindowsOK(tr, s)
                     [] s.k = "render" -> RenderOK(tr, s))

Report(a, b) == LET bad == Bad(Traces[a], b)
                IN IF bad = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson(<<a, b, bad>>))
Init == t \in DOMAIN Traces /\ l = 0
Next == l < Len(Traces[t].steps) /\ l' = l + 1 /\ t' = t /\ Report(t, l')
Spec == Init /\ [][Next]_<<t, l>>
=============================================================================
