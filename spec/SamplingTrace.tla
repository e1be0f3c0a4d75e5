---------------------------- MODULE SamplingTrace --------------------------
(***************************************************************************)
(* Samples, exports and retrieved documents of the real code.              *)
(*                                                                         *)
(* trace: models = <<[docs, clusters]>>*                                   *)
(*          docs = <<doc id, key>>*, clusters = <<id, docs>>* (the union   *)
(*          of the documents of the features)                              *)
(*        content is identified by the key of the document it belongs to   *)
(*        steps:                                                           *)
(*   [k |-> "sample", n, sel, rows, marks]                                 *)
(*   [k |-> "export", rows, marks, header, out]                            *)
(*        out = <<key, contents of the columns, cluster, marks>>*          *)
(*   [k |-> "keys"/"docs"/"html"/"table", q, res]  <<id, key, content>>*   *)
(*   [k |-> "bitmap", q, n, res, after]                                    *)
(*   [k |-> "refused", want, got, same]                                    *)
(***************************************************************************)
EXTENDS Prelude, Json
S == INSTANCE Sampling WITH Docs <- {}, K <- {}, MaxN <- 0, C <- <<>>, Sel <- {}, n <- 0, order <- {}, rows <- <<>>

Traces == JsonDeserialize("trace.json")
VARIABLES t, l

Cl(m) == [c \in {x[1] : x \in SetOf(m.clusters)} |->
            LET i == CHOOSE i \in DOMAIN m.clusters : m.clusters[i][1] = c IN SetOf(m.clusters[i][2])]
KeyOf(m) == [d \in {x[1] : x \in SetOf(m.docs)} |->
            LET i == CHOOSE i \in DOMAIN m.docs : m.docs[i][1] = d IN m.docs[i][2]]

ExportOK(m, s) ==
  LET key == KeyOf(m)
      want == UNION {{<<d, s.rows[i][1]>> : d \in SetOf(s.rows[i][2])} : i \in DOMAIN s.rows}
      M == {<<x[1], SetOf(x[2])>> : x \in SetOf(s.marks)}
      marks(d) == {x[1] : x \in {y \in M : d \in y[2]}}
  IN {<<"C18:one-row-each", /\ Len(s.out) = Cardinality(want)
                            /\ {<<r[1], r[3]>> : r \in SetOf(s.out)} = {<<key[w[1]], w[2]>> : w \in want}>>,
      <<"C18:own-fields", \A r \in SetOf(s.out) : r[2] # <<>> /\ \A i \in DOMAIN r[2] : r[2][i] = r[1]>>,
      <<"C18:marks", {<<r[1], SetOf(r[4])>> : r \in SetOf(s.out)} = {<<key[w[1]], marks(w[1])>> : w \in want}>>,
      <<"C18:header", s.header = 1>>}

RetrievedOK(m, s) ==
  LET key == KeyOf(m)
  IN {<<"C19:documents", /\ {r[2] : r \in SetOf(s.res)} = {key[d] : d \in SetOf(s.q)}
                         /\ Len(s.res) = Cardinality(SetOf(s.q))>>,
      <<"C19:ids-and-keys", s.k # "table" => \A r \in SetOf(s.res) : r[1] \in DOMAIN key /\ key[r[1]] = r[2]>>,
      <<"C19:content", s.k # "keys" => \A r \in SetOf(s.res) : r[3] = r[2]>>,
      <<"C19:query-unchanged", s.after = s.q>>}

Bad(tr, i) ==
  LET s == tr.steps[i]
      m == tr.models[s.m]
  IN Violated(IF s.exc # "" THEN {<<s.prop \o ":works", FALSE>>}
              ELSE CASE s.k = "sample" ->
                          LET C == Cl(m)
                              Sel == IF s.sel = <<>> THEN DOMAIN C ELSE SetOf(s.sel) \cap DOMAIN C
                          IN S!SampleOK(C, Sel, s.n, s.rows) \cup S!MarksOK(C, s.rows, s.marks)
                     [] s.k = "export" -> ExportOK(m, s)
                     [] s.k \in {"keys", "docs", "html", "table"} ->
                          IF s.sample < 0 THEN RetrievedOK(m, s)
                          ELSE LET got == {r[2] : r \in SetOf(s.res)}
                                   key == KeyOf(m)
                               IN {<<"C19:sample-size", Len(s.res) = Min2(s.sample, Len(s.q)) /\ Cardinality(got) = Len(s.res)>>,
                                   <<"C19:sample-members", got \subseteq {key[d] : d \in SetOf(s.q)}>>,
                                   <<"C19:content", \A r \in SetOf(s.res) : r[3] = r[2]>>,
                                   <<"C19:ids-and-keys", s.k # "table" => \A r \in SetOf(s.res) : r[1] \in DOMAIN key /\ key[r[1]] = r[2]>>,
                                   <<"C19:query-unchanged", s.after = s.q>>}
                     [] s.k = "bitmap" ->
                          {<<"C19:sample-size", Cardinality(SetOf(s.res)) = Min2(s.n, Len(s.q)) /\ Distinct(s.res)>>,
                           <<"C19:sample-members", SetOf(s.res) \subseteq SetOf(s.q)>>,
                           <<"C19:query-unchanged", s.after = s.q>>}
                     [] s.k = "refused" -> {<<"C19:documented-error", s.want = s.got>>,
                                            <<"C19:nothing-touched", s.same = 1>>})

Report(a, b) == LET bad == Bad(Traces[a], b)
                IN IF bad = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson(<<a, b, bad>>))
Init == t \in DOMAIN Traces /\ l = 0
Next == l < Len(Traces[t].steps) /\ l' = l + 1 /\ t' = t /\ Report(t, l')
Spec == Init /\ [][Next]_<<t, l>>
=============================================================================
