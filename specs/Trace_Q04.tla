----------------------------- MODULE Trace_Q04 ------------------------------
(* Reports answered by the real service over events really ingested (Q01, Q03, Q04, Q06).          *)
EXTENDS TraceLib, Analytics
Ok(e) ==
  CASE e.k = "data" -> TRUE
    [] e.k = "q" -> e.st = 200 /\ Answers(Trace[e.ds].rows, e, e.cols, e.rows)
    [] OTHER -> FALSE
TSpec == LInit /\ [][More /\ Judge(Ok(Trace[l]))]_l
Asked(P(_)) == \E i \in 1..Len(Trace) : Trace[i].k = "q" /\ P(Trace[i])
(* every measure per group was asked for, of users and of companies, with every aggregate over them *)
Covers ==
  /\ \A g \in 0..1, k \in {"countUniqueGroups", "dailyActiveGroups", "countPerGroup", "aggregatePropertyPerGroup"} :
        Asked(LAMBDA q : q.grp = g /\ \E n \in 1..Len(q.evs) : \E i \in 1..Len(q.evs[n].qs) : q.evs[n].qs[i].k = k)
  /\ \A k \in {"countPerGroup", "aggregatePropertyPerGroup"}, f \in {"count", "sum", "min", "max", "avg"} :
        Asked(LAMBDA q : q.rows # <<>> /\ \E n \in 1..Len(q.evs) : \E i \in 1..Len(q.evs[n].qs) : q.evs[n].qs[i].k = k /\ q.evs[n].qs[i].out = f)
Done == Complete /\ Covers
=============================================================================
