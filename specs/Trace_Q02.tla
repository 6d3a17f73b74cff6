----------------------------- MODULE Trace_Q02 ------------------------------
(* Segments computed by the real operators over histories cut into batches (Q02).                  *)
EXTENDS TraceLib, Segments
Ok(e) == e.k = "seg" /\ e.ok /\ Lists(e.out, Segment(e.rows, e.expr))
TSpec == LInit /\ [][More /\ Judge(Ok(Trace[l]))]_l
Some(P(_)) == \E i \in 1..Len(Trace) : Trace[i].ok /\ P(Trace[i])
Covers == /\ \A o \in {"eq", "neq", "lt", "lte", "gt", "gte"} : Some(LAMBDA e : e.out # <<>> /\ e.expr.k = "count" /\ e.expr.op = o)
          /\ \A f \in {"sum", "avg", "min", "max", "count"} : Some(LAMBDA e : e.out # <<>> /\ e.expr.k = "agg" /\ e.expr.fn = f)
          /\ \A k \in {"and", "or"} : Some(LAMBDA e : e.out # <<>> /\ e.expr.k = k)
          \* a user is in a segment for never having done something
          /\ Some(LAMBDA e : e.expr.k = "count" /\ \E u \in SetOf(e.out) : ~\E i \in DOMAIN e.rows : e.rows[i].u = <<u>> /\ Interest(e.rows[i], e.expr))
Done == Complete /\ Covers
=============================================================================
