------------------------------ MODULE Trace_C03 -----------------------------
EXTENDS TraceLib, TimeQuery
Ok(e) ==
  CASE Has(e, "panic") -> FALSE
    [] e.k = "trunc" -> e.r = Trunc(e.t, e.unit)
    [] e.k = "cols" -> e.cols = Columns(e.from, e.to, e.unit)
    [] e.k = "reqcols" -> LET w == WindowLast(e.cur, e.unit, e.n) IN e.cols = Columns(w.from, w.to, e.unit)
    [] OTHER -> FALSE
TSpec == LInit /\ [][More /\ Judge(Ok(Trace[l]))]_l
=============================================================================
