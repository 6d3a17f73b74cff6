----------------------------- MODULE Trace_Q05 ------------------------------
(* Funnels answered by the real service over events really ingested. The rows of a funnel are the   *)
(* events of the project in the window of the question that pass its filters.                       *)
EXTENDS TraceLib, Analytics
F == INSTANCE Funnels
Epoch == 18628                                   \* the first of January 2021, as a day
Hit(alts, ev) == \E i \in DOMAIN alts : IsEvent(alts[i].alts, ev) /\ PassesAll(alts[i].f, ev)
Row(q, ev) ==
  [u |-> Who(ev, q.grp), t |-> ((ev.t.d - Epoch) * 86400) + ev.t.s, at |-> ev.t,
   g |-> [i \in DOMAIN q.brk |-> ev.b[q.brk[i]]], c |-> [i \in DOMAIN q.hold |-> ev.b[q.hold[i]]],
   st |-> [k \in DOMAIN q.steps |-> Hit(q.steps[k], ev)], ex |-> [i \in DOMAIN q.ex |-> IsEvent(q.ex[i].alts, ev) /\ PassesAll(q.ex[i].f, ev)]]
RowsOf5(D, q) ==
  LET w == Window(q.time)
      R == SelectSeq(D, LAMBDA ev : ev.p = q.p /\ Within(ev.t, w) /\ PassesAll(q.glob, ev))
  IN [i \in DOMAIN R |-> Row(q, R[i])]
Ok(e) ==
  CASE e.k = "data" -> TRUE
    [] e.k = "f" -> e.st = 200 /\ e.named /\ F!Answer(e.q, RowsOf5(Trace[e.ds].rows, e), e.out)
    [] OTHER -> FALSE
TSpec == LInit /\ [][More /\ Judge(Ok(Trace[l]))]_l
Some(P(_)) == \E i \in 1..Len(Trace) : Trace[i].k = "f" /\ Trace[i].out # <<>> /\ P(Trace[i])
Ends(e) == \E i \in DOMAIN e.out : e.out[i].steps[e.q.n].total > 0
Covers == /\ \A b \in BOOLEAN : Some(LAMBDA e : e.q.unique = b /\ e.q.n > 1 /\ Ends(e))
          /\ \A g \in 0..1 : Some(LAMBDA e : e.grp = g /\ e.q.n > 1 /\ Ends(e))
          /\ Some(LAMBDA e : e.brk # <<>> /\ Ends(e)) /\ Some(LAMBDA e : e.hold # <<>>) /\ Some(LAMBDA e : e.ex # <<>>)
          /\ Some(LAMBDA e : e.q.unit # "" /\ Len(e.out) > 2)
Done == Complete /\ Covers
=============================================================================
