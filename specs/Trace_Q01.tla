----------------------------- MODULE Trace_Q01 ------------------------------
(* Reports answered by the real service over events really ingested (Q01, Q03, Q04, Q06).          *)
EXTENDS TraceLib, Analytics
Ok(e) ==
  CASE e.k = "data" -> TRUE
    [] e.k = "q" -> e.st = 200 /\ Answers(Trace[e.ds].rows, e, e.cols, e.rows)
    [] OTHER -> FALSE
TSpec == LInit /\ [][More /\ Judge(Ok(Trace[l]))]_l
Asked(P(_)) == \E i \in 1..Len(Trace) : Trace[i].k = "q" /\ P(Trace[i])
(* every kind of comparison was asked of some event and found some *)
Uses(q, o) == (\E n \in 1..Len(q.evs) : \E i \in 1..Len(q.evs[n].f) : q.evs[n].f[i].op = o) \/ \E i \in 1..Len(q.glob) : q.glob[i].op = o
Covers == /\ \A o \in {"exists", "empty", "true", "false", "eq", "neq", "gt", "gte", "lt", "lte", "like", "notLike", "regex", "notRegex"} : Asked(LAMBDA q : q.rows # <<>> /\ Uses(q, o))
          /\ Asked(LAMBDA q : q.rows # <<>> /\ q.glob # <<>>)
          /\ Asked(LAMBDA q : q.rows # <<>> /\ \E n \in 1..Len(q.evs) : Len(q.evs[n].alts) > 1)
          /\ Asked(LAMBDA q : q.p = 1)
Done == Complete /\ Covers
=============================================================================
