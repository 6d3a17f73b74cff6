------------------------------ MODULE Trace_C02 -----------------------------
EXTENDS TraceLib, TimeQuery
Ok(e) ==
  CASE Has(e, "panic") -> FALSE
    [] e.k = "last" -> [from |-> e.from, to |-> e.to] = WindowLast(e.cur, e.unit, e.n)
    [] e.k = "between" -> e.from = e.f /\ e.to = e.t
    [] e.k = "from" -> e.from = e.f /\ e.to = e.cur
    [] e.k = "dur" -> [ds |-> e.ds, ss |-> e.ss] = Length(e.unit, e.n) /\ e.frac = 0
    [] e.k = "win" -> e.has = (e.seg = "each") /\ (e.has => [ds |-> e.ds, ms |-> e.ms] = [ds |-> Length(e.unit, e.n).ds, ms |-> Length(e.unit, e.n).ss * 1000])
    [] e.k = "plus" -> e.to = Plus(e.cur, e.unit, e.n)
    [] e.k = "uname" -> e.name = e.unit
    [] OTHER -> FALSE
TSpec == LInit /\ [][More /\ Judge(Ok(Trace[l]))]_l
=============================================================================
