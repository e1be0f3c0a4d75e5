-------------------------- MODULE InversionTrace --------------------------
(* Evaluates recorded indexing runs: one step per run of index() on one database. *)
EXTENDS Inversion, Json

Traces == JsonDeserialize("trace.json")
VARIABLES t, l

(*
 step: corpus, pos (1 when positions were requested), prev (features known before, <<fid,f,v>>),
       exc ("" or the exception), obs = [
         docs: <<id, key>>, feats: <<fid, f, v, count, docs>>, summary: <<f, distinct, min, max, positions>>,
         positional: fields, occ: <<f, v, <<doc, start, end, count>>*>> (through passage search),
           lookups: <<f, v, fid, docs by key, docs by id, f', v'>>, iters: <<f, min, <<v, n, docs>>*>>,
         keys: <<query ids, <<key, id>>*>> ]
*)
Bad(tr, i) ==
  LET s == tr.steps[i]
      c == s.corpus
      o == s.obs
      pairs == Pairs(c)
      idOf == [d \in DOMAIN c |-> LET m == {x \in SetOf(o.docs) : x[2] = c[d].key}
                                  IN IF m = {} THEN -1 ELSE (CHOOSE x \in m : TRUE)[1]]
      Ids(S) == {idOf[d] : d \in S}
      feats == SetOf(o.feats)
      prev == SetOf(s.prev)
      prevPairs == {<<p[2], p[3]>> : p \in prev}
      knownPairs == {<<x[2], x[3]>> : x \in feats}
      fields == {x[2] : x \in feats}
      ValsOf(f) == {x[3] : x \in {y \in feats : y[2] = f}}
      Occ(f, v) == {<<idOf[x[1]], x[2]>> : x \in Occurrences(c, f, v)}
      PosTotal(f) == IF s.pos = 1 THEN PositionTotal(c, f) ELSE 0
      posFields == {f \in fields : PosTotal(f) > 0}
      DocsOf(f, v) == Ids(DocsWith(c, f, v))
  IN
  IF s.exc # "" THEN {"C01:indexing-succeeds", "C02:indexing-succeeds", "C03:indexing-succeeds"}
  ELSE Violated({
    <<"C01:one-id-per-document",
        /\ Len(o.docs) = Len(c)
        /\ {x[2] : x \in SetOf(o.docs)} = {c[d].key : d \in DOMAIN c}
        /\ Cardinality({x[1] : x \in SetOf(o.docs)}) = Len(c)>>,
    <<"C01:feature-unique", /\ Cardinality(knownPairs) = Len(o.feats)
                            /\ Cardinality({x[1] : x \in feats}) = Len(o.feats)>>,
    <<"C01:features-are-the-values", {<<x[2], x[3]>> : x \in {y \in feats : y[5] # <<>>}} = pairs>>,
    <<"C01:documents-of-each-feature",
        \A x \in feats : /\ Distinct(x[5])
                         /\ SetOf(x[5]) = (IF <<x[2], x[3]>> \in pairs THEN DocsOf(x[2], x[3]) ELSE {})>>,
    <<"C01:counts", \A x \in feats : x[4] = Len(x[5])>>,
    <<"C03:feature-ids-kept", \A p \in prev : \E x \in feats : x[1] = p[1] /\ x[2] = p[2] /\ x[3] = p[3]>>,
    <<"C03:nothing-invented", knownPairs = pairs \cup prevPairs>>,
    <<"C01:lookups", \A q \in SetOf(o.lookups) :
        IF <<q[1], q[2]>> \in pairs \cup prevPairs
        THEN /\ \E x \in feats : x[1] = q[3] /\ x[2] = q[1] /\ x[3] = q[2]
             /\ SetOf(q[4]) = DocsOf(q[1], q[2])
             /\ SetOf(q[5]) = DocsOf(q[1], q[2])
             /\ q[6] = q[1] /\ q[7] = q[2]
        ELSE q[3] = -1 /\ q[4] = <<>> /\ q[5] = <<>>>>,
    <<"C01:field-iteration", \A q \in SetOf(o.iters) :
        LET f == q[1]
            items == q[3]
            known == {x \in feats : x[2] = f /\ x[4] >= q[2]}
        IN /\ \A k \in 1..(Len(items) - 1) : items[k][1] < items[k + 1][1]
           /\ {<<y[1], y[2], SetOf(y[3])>> : y \in SetOf(items)} = {<<x[3], x[4], SetOf(x[5])>> : x \in known}>>,
    <<"C01:field-summary",
        /\ Cardinality({x[1] : x \in SetOf(o.summary)}) = Len(o.summary)
        /\ {x[1] : x \in SetOf(o.summary)} = fields
        /\ \A x \in SetOf(o.summary) :
             /\ x[2] = Cardinality(ValsOf(x[1]))
             /\ x[2] > 0 => x[3] = MinOf(ValsOf(x[1])) /\ x[4] = MaxOf(ValsOf(x[1]))>>,
    <<"C01:keys-of-query", \A q \in SetOf(o.keys) :
        {<<x[1], x[2]>> : x \in SetOf(q[2])} = {<<x[2], x[1]>> : x \in {y \in SetOf(o.docs) : y[1] \in SetOf(q[1])}}>>,
    <<"C02:field-position-totals", \A x \in SetOf(o.summary) : x[5] = PosTotal(x[1])>>,
    <<"C02:positional-fields", SetOf(o.positional) = posFields>>,
    <<"C02:occurrences-found", \A q \in SetOf(o.occ) :
        /\ \A m \in SetOf(q[3]) : m[2] = m[3] /\ m[4] = 1
        /\ Distinct(q[3])
        /\ {<<m[1], m[2]>> : m \in SetOf(q[3])} = IF s.pos = 1 THEN Occ(q[1], q[2]) ELSE {}>>
  })

Report(a, b) == LET bad == Bad(Traces[a], b)
                IN IF bad = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson(<<a, b, bad>>))

Init == t \in DOMAIN Traces /\ l = 0
Next == l < Len(Traces[t].steps) /\ l' = l + 1 /\ t' = t /\ Report(t, l')
Spec == Init /\ [][Next]_<<t, l>>
=============================================================================
