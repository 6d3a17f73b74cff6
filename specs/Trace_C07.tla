------------------------------ MODULE Trace_C07 -----------------------------
EXTENDS TraceLib, Vocabulary
R(s, r) == IF s = "ok" THEN r ELSE Refused
Ok(e) ==
  CASE e.k = "op" -> R(e.s1, e.r1) = EngineOp(e.n) /\ R(e.s2, e.r2) = EngineOp(e.n) /\ R(e.s3, e.r3) = EngineOp(e.n) /\ e.noval = (e.n \in NoValue)
    [] e.k = "oper" -> e.n \in Operators /\ R(e.s1, e.r1) = e.n /\ R(e.s2, e.r2) = e.n
    [] e.k = "dfop" -> R(e.s1, e.r1) = FromEngineOp(e.n)
    [] e.k = "agg" -> R(e.s1, e.r1) \in EngineAgg(e.n) /\ (R(e.s1, e.r1) # Refused => R(e.s2, e.r2) = e.n) /\ e.disp = AggText[e.n]
    [] e.k = "pagg" -> e.disp = AggText[e.n]
    [] e.k = "qagg" -> R(e.s1, e.r1) \in {SimpleAgg(e.n)}
    [] e.k = "tunit" -> e.r = e.n /\ e.b = e.n
    [] e.k = "evref" -> e.r = (IF e.kind = "name" THEN e.nm ELSE ToString(e.id))
    [] e.k = "propref" -> e.kind = "custom" \/ R(e.s1, e.r1) = e.nm
    [] e.k = "qname" -> R(e.s1, e.r1) = InitialName(e.n) /\ R(e.s2, e.r2) = QueryName(e.n, e.f, e.g, "Rev")
    [] e.k = "chart" -> e.r = (IF e.n \in {"over_time", "ttc"} THEN e.u ELSE "none")
    [] OTHER -> FALSE
TSpec == LInit /\ [][More /\ Judge(Ok(Trace[l]))]_l
Covers == /\ UserOps = {Trace[i].n : i \in {j \in 1..Len(Trace) : Trace[j].k = "op"}}
          /\ QueryAggs = {Trace[i].n : i \in {j \in 1..Len(Trace) : Trace[j].k = "qagg"}}
Done == Complete /\ Covers
=============================================================================
