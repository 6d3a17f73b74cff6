------------------------------ MODULE Trace_C05 -----------------------------
EXTENDS TraceLib, StoredValues
Field(kind, v) == IF kind = "set" THEN SetTo(v) ELSE Unset
Ok(e) ==
  CASE e.k = "scalar" -> RoundTrip(e.typ, e.val, e.jsonable, [enc |-> e.enc, dec |-> e.dec, typ |-> e.rtyp, val |-> e.rval])
    [] e.k = "patch" ->
         LET p == Decode(e.p, {"7"}, FALSE)  o == Decode(e.o, {"\"\"", "\"v\""}, TRUE)  q == Decode(e.l, {"[]", "[1,2]"}, TRUE) IN
         IF Refused \in {p, o, q} THEN e.st = "refused"
         ELSE /\ e.st = "ok"
              /\ Field(e.pk, e.pv) = p /\ Field(e.ok, e.ov) = o /\ Field(e.lk, e.lv) = q
              /\ e.back = e.doc
              /\ e.isnone = <<~p.set, ~o.set, ~q.set>>
    [] e.k = "patchop" -> LET s == e.set IN
         /\ e.map = (IF s THEN "Some(8)" ELSE "None") /\ e.into = (IF s THEN "Some(7)" ELSE "None")
         /\ e.try = (IF s THEN "Ok(Some(7))" ELSE "Ok(None)") /\ e.ins = "Some(42)" /\ e.def = "None"
    [] e.k = "tryinto" -> e.r = e.exp
    [] e.k = "apply" -> e.new = Apply(IF e.set THEN SetTo(e.v) ELSE Unset, e.old)
    [] e.k = "sort" -> e.j = "\"" \o e.n \o "\"" /\ e.same /\ e.def = "Asc"
    [] e.k = "saved" -> e.enc /\ e.same
    [] OTHER -> FALSE
TSpec == LInit /\ [][More /\ Judge(Ok(Trace[l]))]_l
Covers == Storable \subseteq {Trace[i].typ : i \in {j \in 1..Len(Trace) : Trace[j].k = "scalar"}}
Done == Complete /\ Covers
=============================================================================
