----------------------------- MODULE Trace_M09 ------------------------------
EXTENDS StateTrace, Settings
Start(e) == [cfg |-> {}, backups |-> {}, used |-> {}]
Step(s, e, par) ==
  LET B(id) == {b \in s.backups : b.id = id} IN
  IF e.k = "blist" THEN (IF e.e = "ok" /\ SetOf(e.list) = s.backups /\ Len(e.list) = Cardinality(s.backups) THEN {s} ELSE {})
  ELSE CASE e.a = "save" -> IF Valid(e.q) THEN (IF e.r.e = "ok" THEN {[s EXCEPT !.cfg = {e.q}]} ELSE {}) ELSE IF e.r.e = "bad" THEN {s} ELSE {}
    [] e.a = "load" -> IF s.cfg = {} THEN (IF e.r.e = "notfound" THEN {s} ELSE {}) ELSE IF e.r.e = "ok" /\ e.r.o \in s.cfg THEN {s} ELSE {}
    [] e.a = "backup" ->
         IF s.cfg = {} THEN (IF e.r.e = "notfound" THEN {s} ELSE {})
         ELSE IF Idle(s) THEN (IF e.r.e = "exists" THEN {s} ELSE {})
         ELSE IF e.r.e = "ok" /\ e.r.o.id \notin s.used /\ \E c \in s.cfg : e.r.o = Asked(c, e.r.o.id) THEN {[s EXCEPT !.backups = @ \cup {e.r.o}, !.used = @ \cup {e.r.o.id}]} ELSE {}
    [] e.a = "status" -> IF B(e.id) = {} THEN (IF e.r.e = "notfound" THEN {s} ELSE {}) ELSE IF e.r.e = "ok" THEN {[s EXCEPT !.backups = {IF b.id = e.id THEN [b EXCEPT !.status = e.status] ELSE b : b \in @}]} ELSE {}
    [] e.a = "bdelete" -> IF B(e.id) = {} THEN (IF e.r.e = "notfound" THEN {s} ELSE {}) ELSE IF e.r.e = "ok" THEN {[s EXCEPT !.backups = @ \ B(e.id)]} ELSE {}
    [] e.a = "bget" -> IF B(e.id) = {} THEN (IF e.r.e = "notfound" THEN {s} ELSE {}) ELSE IF e.r.e = "ok" /\ e.r.o \in B(e.id) THEN {s} ELSE {}
    [] OTHER -> {}
TSpec == SInit /\ [][SNext(Start, Step)]_<<l, S>>
Sound == \A s \in S : OneWaits(s)
=============================================================================
