------------------------------ MODULE Trace_Q07 ------------------------------
(* Records shown by the real service, over records really ingested (Q07).                          *)
EXTENDS TraceLib, Records
Data(e) == Trace[e.ds].rows
Ok(e) ==
  CASE e.k = "data" -> TRUE
    [] e.k = "search" -> e.st = 200 /\ e.ok /\ SearchShows(Data(e), e, e.rows)
    [] e.k = "one" -> e.ok /\ OneShows(Data(e), e, e.st, e.out) /\ (e.st # 200 => e.out = <<>> \/ DOMAIN e.out = {})
    [] e.k = "values" -> e.st = 200 /\ ValuesShow(Data(e), e, e.vals, e.ranks)
    [] OTHER -> FALSE
TSpec == LInit /\ [][More /\ Judge(Ok(Trace[l]))]_l
Asked(P(_)) == \E i \in 1..Len(Trace) : P(Trace[i])
Covers == /\ \A g \in {-1, 0, 1} : /\ Asked(LAMBDA e : e.k = "search" /\ e.grp = g /\ e.rows # <<>> /\ e.glob # <<>>)
                                   /\ Asked(LAMBDA e : e.k = "one" /\ e.grp = g /\ e.st = 200)
                                   /\ Asked(LAMBDA e : e.k = "one" /\ e.grp = g /\ e.st # 200)
          /\ Asked(LAMBDA e : e.k = "search" /\ Len(e.rows) = Most)
          /\ Asked(LAMBDA e : e.k = "search" /\ Len(e.evs) > 1 /\ e.rows # <<>>)
          /\ Asked(LAMBDA e : e.k = "values" /\ e.f # <<>> /\ e.vals # <<>>)
          /\ Asked(LAMBDA e : e.k = "values" /\ e.evs # <<>> /\ e.vals # <<>>)
Done == Complete /\ Covers
=============================================================================
