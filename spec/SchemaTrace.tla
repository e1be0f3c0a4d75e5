----------------------------- MODULE SchemaTrace ----------------------------
(***************************************************************************)
(* Recorded openings of databases.                                         *)
(*  [k |-> "found", kind, obs]    what is there before: kind "index" (of   *)
(*       any version), "foreign" (another database), "file", "fresh"       *)
(*  [k |-> "open", exc, may, obs] exc: "", "MigrationError" or another;    *)
(*       may = 1: something was done to it which may make it fail          *)
(*  [k |-> "isindex", truth, got, obs]                                     *)
(* obs: version, e (index content), rest (number of the document keys and  *)
(* positions), pos (positions per feature), fc, cl, sum (field summary),   *)
(* pending, dump, bytes (numbers of the whole logical content, of the file)*)
(***************************************************************************)
EXTENDS ModelJudge, Json

Traces == JsonDeserialize("trace.json")
VARIABLES t, l

Supported == 4..9
Current == 10

RECURSIVE SumPairs(_)
SumPairs(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN x[2] + SumPairs(S \ {x})

Members0(o) == {<<r[1], r[2]>> : r \in SetOf(o.fc)}
(* an index without documents has no fields *)
FieldsOK(tr, o) ==
  LET K == Content(tr.epochs[o.e])
      of(f) == {x \in DOMAIN K.docs : K.field[x] = f}
  IN {<<r[1], r[2], r[3], r[4], r[5]>> : r \in SetOf(o.sum)}
       = {<<f, Cardinality(of(f)), MinOf({K.value[x] : x \in of(f)}), MaxOf({K.value[x] : x \in of(f)}),
            SumPairs({p \in SetOf(o.pos) : p[1] \in of(f)})>> : f \in {K.field[x] : x \in DOMAIN K.docs}}

Kept(a, b) == a.e = b.e /\ a.rest = b.rest
              /\ Members0(a) = Members0(b)
              /\ {r[1] : r \in {x \in SetOf(a.fc) : x[3] = 1}} = {r[1] : r \in {x \in SetOf(b.fc) : x[3] = 1}}
              /\ {r[1] : r \in {x \in SetOf(a.cl) : x[5] = 1}} = {r[1] : r \in {x \in SetOf(b.cl) : x[5] = 1}}

Right(tr, o) ==
  LET K == Content(tr.epochs[o.e])
  IN {<<"version", o.version = Current>>,
      <<"partition", Partition(o)>>,
      <<"cluster-statistics", SummaryDocs(o, K) /\ SummaryCounts(o, K)>>,
      <<"feature-statistics", FeatureCounts(o, K)>>,
      <<"field-statistics", FieldsOK(tr, o)>>}

Prev(tr, i) == tr.steps[i - 1].obs

Bad(tr, i) ==
  LET s == tr.steps[i]
      o == s.obs
      p == Prev(tr, i)
      kind == tr.steps[1].kind
      refuse == kind = "foreign" \/ (kind = "index" /\ p.version \notin Supported \cup {Current})
  IN CASE s.k = "found" -> {}
     [] s.k = "open" /\ kind = "file" -> Violated({<<"refused", s.exc # "">>, <<"refused-unchanged", o.bytes = p.bytes>>})
     [] s.k = "open" /\ refuse ->
          Violated({<<"refused", s.exc = "MigrationError">>, <<"refused-unchanged", o.dump = p.dump /\ o.bytes = p.bytes>>})
     [] s.k = "open" /\ s.exc = "" ->
          Violated(Right(tr, o)
                   \cup {<<"content-kept", kind = "fresh" \/ Kept(p, o)>>,
                         <<"reopening-changes-nothing", p.version = Current /\ p.pending = 0 => o.dump = p.dump>>})
     [] s.k = "open" ->
          Violated({<<"opens", s.may = 1>>,
                    <<"failure-keeps-the-content", kind = "fresh" \/ Kept(p, o)>>,
                    <<"failure-keeps-the-version-or-completes-it", o.version = Current \/ o.dump = p.dump \/ (kind = "fresh" /\ o.version <= 0)>>})
     [] s.k = "isindex" -> Violated({<<"is-index", s.got = s.truth>>, <<"looking-changes-nothing", o.dump = p.dump /\ o.bytes = p.bytes>>})
     [] OTHER -> {"unknown-step"}

Named(S) == {"C23:" \o x : x \in S}
Report(a, b) == LET bad == Bad(Traces[a], b)
                IN IF bad = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson(<<a, b, Named(bad)>>))
Init == t \in DOMAIN Traces /\ l = 0
Next == l < Len(Traces[t].steps) /\ l' = l + 1 /\ t' = t /\ Report(t, l')
Spec == Init /\ [][Next]_<<t, l>>
=============================================================================
