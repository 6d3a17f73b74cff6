------------------------------ MODULE Trace_C06 -----------------------------
EXTENDS TraceLib, ApiErrors
Extract == [valid |-> <<"ok", 0, "", "">>, missing |-> <<"err", 400, "n", "missing">>, unknown |-> <<"err", 400, "zz", "unknown">>, type |-> <<"err", 400, "", "">>,
            syntax |-> <<"err", 400, "", "">>, ctype |-> <<"err", 400, "", "">>, dup |-> <<"err", 400, "name", "duplicate">>]
Ok(e) ==
  CASE Has(e, "panic") -> FALSE
    [] e.k = "body" ->
         LET e0 == IF e.inner THEN Because(New(e.kind, e.m), "why") ELSE New(e.kind, e.m)
             r == Response(e0) IN
         e.status = r.line /\ e.bstatus = r.status /\ e.bm = r.message /\ e.fields_same /\ e.hasf = (e.nf > 0) /\ e.disp = r.message
    [] e.k = "extract" -> <<e.st, e.status, e.f, e.fv>> = Extract[e.c] /\ (e.st = "ok" => e.name = "a")
    [] e.k = "layer" -> LET st == Status[LayerKind(e.layer, e.v)] IN e.status = st /\ e.bstatus = st /\ e.has /\ e.fields_same
    [] e.k = "clen" -> e.r = e.want
    [] OTHER -> FALSE
TSpec == LInit /\ [][More /\ Judge(Ok(Trace[l]))]_l
Covers == \/ \A k \in Kinds : \E i \in 1..Len(Trace) : Trace[i].k = "body" /\ Trace[i].kind = k
          \/ \A k \in Kinds : \E i \in 1..Len(Trace) : Trace[i].k = "layer" /\ LayerKind(Trace[i].layer, Trace[i].v) = k
Done == Complete /\ Covers
=============================================================================
