---------------------------- MODULE Trace_Q05ops ----------------------------
(* The funnel operators over tables cut into batches and partitions at will.                       *)
EXTENDS TraceLib, Funnels
Ok(e) == e.k = "fun" /\ e.ok /\ Answer(e.p, e.rows, e.out)
TSpec == LInit /\ [][More /\ Judge(Ok(Trace[l]))]_l
Some(Q(_)) == \E i \in 1..Len(Trace) : Trace[i].ok /\ Trace[i].out # <<>> /\ Q(Trace[i])
Drops(e) == \E i \in DOMAIN e.out : e.out[i].steps[e.p.n].total < e.out[i].steps[1].total
Ends(e) == \E i \in DOMAIN e.out : e.out[i].steps[e.p.n].total > 0
Covers == /\ \A b \in BOOLEAN : Some(LAMBDA e : e.p.unique = b /\ e.p.n > 2 /\ Drops(e) /\ Ends(e) /\ e.target > 1)
          /\ Some(LAMBDA e : e.p.excl # <<>>) /\ Some(LAMBDA e : e.p.hold /\ Ends(e)) /\ Some(LAMBDA e : Len(e.out) > 2 /\ e.p.unit # "")
          /\ Some(LAMBDA e : \E k \in DOMAIN e.p.any : e.p.any[k] # <<>>)
Done == Complete /\ Covers
=============================================================================
