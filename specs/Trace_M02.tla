----------------------------- MODULE Trace_M02 ------------------------------
EXTENDS StateTrace, Dictionary
Start(e) == {}
Col(e) == <<e.p, e.t, e.d>>
Step(s, e, par) ==
  CASE e.a = "enc" -> IF e.r.e = "ok" THEN Encode(s, Col(e), e.s, e.r.o) ELSE {}
    [] e.a = "key" -> LET old == Issued(s, Col(e), e.s) IN
         IF old = {} THEN (IF e.r.e = "notfound" THEN {s} ELSE {}) ELSE IF e.r.e = "ok" /\ \A x \in old : x[3] = e.r.o THEN {s} ELSE {}
    [] e.a = "val" -> LET was == Decode(s, Col(e), e.key) IN
         IF was = {} THEN (IF e.r.e = "notfound" THEN {s} ELSE {}) ELSE IF e.r.e = "ok" /\ was = {e.r.o} THEN {s} ELSE {}
    [] OTHER -> {}
TSpec == SInit /\ [][SNext(Start, Step)]_<<l, S>>
Sound == \A s \in S : IsBijection(s)
=============================================================================
