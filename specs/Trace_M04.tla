----------------------------- MODULE Trace_M04 ------------------------------
EXTENDS StateTrace, Sessions
Start(e) == {}
Step(s, e, par) ==
  CASE e.a = "act" -> IF e.r.e = "ok" /\ e.r.o = IsNew(s, e.p, e.u) THEN {Active(s, e.p, e.u, e.t)} ELSE {}
    [] e.a = "get" -> LET mine == Of(s, e.p, e.u) IN
         IF mine = {} THEN (IF e.r.e = "notfound" THEN {s} ELSE {}) ELSE IF e.r.e = "ok" /\ \A x \in mine : e.r.o = <<x[2], x[3]>> THEN {s} ELSE {}
    [] e.a = "sweep" ->
         LET all == {<<x[2], x[3]>> : x \in {x \in s : x[1] = e.p}}
             stop == e.err /\ Expired(s, e.p, e.cut) # {} IN
         IF stop THEN (IF e.r.e = "internal" /\ (par \/ SetOf(e.x) \subseteq all) THEN {s} ELSE {})
         ELSE IF e.r.e = "ok" /\ (par \/ (SetOf(e.x) = all /\ Len(e.x) = Cardinality(all))) THEN {Sweep(s, e.p, e.cut)} ELSE {}
    [] e.a = "clear" -> IF e.r.e = "ok" THEN {Clear(s, e.p)} ELSE {}
    [] OTHER -> {}
TSpec == SInit /\ [][SNext(Start, Step)]_<<l, S>>
Sound == \A s \in S : OneSession(s)
=============================================================================
