----------------------------- MODULE Trace_Q06 ------------------------------
(* Reports answered by the real service over events really ingested (Q01, Q03, Q04, Q06).          *)
EXTENDS TraceLib, Analytics
Ok(e) ==
  CASE e.k = "data" -> TRUE
    [] e.k = "q" -> e.st = 200 /\ Answers(Trace[e.ds].rows, e, e.cols, e.rows)
    [] OTHER -> FALSE
TSpec == LInit /\ [][More /\ Judge(Ok(Trace[l]))]_l
Asked(P(_)) == \E i \in 1..Len(Trace) : Trace[i].k = "q" /\ P(Trace[i])
(* breakdowns by each kind of property, by several, by an event's own, over several events and measures *)
Covers == /\ \A b \in {"color", "vip", "plan"} : Asked(LAMBDA q : q.rows # <<>> /\ \E i \in 1..Len(q.brk) : q.brk[i] = b)
          /\ Asked(LAMBDA q : q.rows # <<>> /\ Len(q.brk) > 1)
          /\ Asked(LAMBDA q : q.rows # <<>> /\ Len(q.evs) > 2)
          /\ Asked(LAMBDA q : q.rows # <<>> /\ Len(q.evs) > 1 /\ \E n \in 1..Len(q.evs) : q.evs[n].brk # <<>>)
          /\ Asked(LAMBDA q : q.rows # <<>> /\ \E n \in 1..Len(q.evs) : Len(q.evs[n].qs) > 2)
          /\ \A u \in {"hour", "day", "week", "month", "year"} : Asked(LAMBDA q : q.rows # <<>> /\ q.unit = u /\ Len(q.cols) > 1)
Done == Complete /\ Covers
=============================================================================
