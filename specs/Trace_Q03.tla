----------------------------- MODULE Trace_Q03 ------------------------------
(* Reports answered by the real service over events really ingested (Q01, Q03, Q04, Q06).          *)
EXTENDS TraceLib, Analytics
Ok(e) ==
  CASE e.k = "data" -> TRUE
    [] e.k = "q" -> e.st = 200 /\ Answers(Trace[e.ds].rows, e, e.cols, e.rows)
    [] OTHER -> FALSE
TSpec == LInit /\ [][More /\ Judge(Ok(Trace[l]))]_l
Asked(P(_)) == \E i \in 1..Len(Trace) : Trace[i].k = "q" /\ P(Trace[i])
(* every aggregate of a property was asked for and was there, with and without breakdown *)
Covers == \A f \in {"count", "sum", "min", "max", "avg"}, b \in BOOLEAN :
            Asked(LAMBDA q : q.rows # <<>> /\ (q.names = <<>>) = b /\ \E n \in 1..Len(q.evs) : \E i \in 1..Len(q.evs[n].qs) : q.evs[n].qs[i].k = "aggregateProperty" /\ q.evs[n].qs[i].out = f)
Done == Complete /\ Covers
=============================================================================
