---------------------------- MODULE Trace_Q03ops ---------------------------
(* The aggregation operators over tables cut into batches and partitions at will (Q03, Q04).       *)
EXTENDS TraceLib, Aggregates
Ok(e) == e.k = "agg" /\ e.ok /\ Answer(e.rows, e.segs, e.ms, e.groups, e.out)
TSpec == LInit /\ [][More /\ Judge(Ok(Trace[l]))]_l
Some(P(_)) == \E i \in 1..Len(Trace) : Trace[i].ok /\ Trace[i].out # <<>> /\ P(Trace[i])
Covers == /\ Some(LAMBDA e : e.segs = <<>> /\ e.target > 1 /\ e.cuts > 1)
          /\ Some(LAMBDA e : Len(e.segs) > 1)
          /\ \A f \in {"count", "sum", "min", "max", "avg"} : Some(LAMBDA e : \E j \in DOMAIN e.ms : e.ms[j].out = f)
Done == Complete /\ Covers
=============================================================================
