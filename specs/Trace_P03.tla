----------------------------- MODULE Trace_P03 ------------------------------
(* server settings and backups through the API; the stored settings read behind its back *)
EXTENDS StateTrace, Settings
Start(e) == [c |-> e.c, dir |-> e.dir, backups |-> {}, used |-> {}]
Ids(s, id) == {b \in s.backups : b.id = id}
Allowed(s, e, T) == IF e.as = "admin" THEN T ELSE IF e.st = 403 THEN {s} ELSE {}
Step(s, e, par) ==
  CASE e.k = "put" /\ ~e.read -> (IF e.st \in {400, 422} \/ (e.as # "admin" /\ e.st = 403) THEN {s} ELSE {})
    [] e.k = "put" /\ e.read -> Allowed(s, e,
         LET c == Changed(s.c, e.q) IN
              IF Valid(Cfg(c, s.dir)) THEN (IF e.st = 200 /\ e.o = Shown(c) THEN {[s EXCEPT !.c = c]} ELSE {})
              ELSE IF e.st = 400 THEN {s} ELSE {})
    [] e.k = "get" -> Allowed(s, e, IF e.st = 200 /\ e.o = Shown(s.c) THEN {s} ELSE {})
    [] e.k = "stored" -> IF e.c = s.c /\ e.dir = s.dir THEN {s} ELSE {}
    [] e.k = "backup" -> Allowed(s, e,
         IF ~s.c.backupEnabled THEN (IF e.st = 403 THEN {s} ELSE {})
         ELSE IF Idle(s) THEN (IF e.st = 409 THEN {s} ELSE {})
         ELSE LET b == Asked(Cfg(s.c, s.dir), e.id) IN
              IF e.st \in {201, 204} /\ e.id \notin s.used /\ e.o = BackupShown(b) THEN {[s EXCEPT !.backups = @ \cup {b}, !.used = @ \cup {e.id}]} ELSE {})
    [] e.k = "bget" -> Allowed(s, e, IF Ids(s, e.id) = {} THEN (IF e.st = 404 THEN {s} ELSE {}) ELSE IF e.st = 200 /\ \E b \in Ids(s, e.id) : e.o = BackupShown(b) THEN {s} ELSE {})
    [] e.k = "blist" -> Allowed(s, e, IF e.st = 200 /\ Len(e.list) = Cardinality(s.backups) /\ SetOf(e.list) = {BackupShown(b) : b \in s.backups} THEN {s} ELSE {})
    (* the worker's side: what it finds to do, how it reports *)
    [] e.k = "job" -> IF {[id |-> b.id, pw |-> b.pw, enc |-> b.enc, prov |-> b.prov] : b \in s.backups} = SetOf(e.list) THEN {s} ELSE {}
    [] e.k = "report" -> IF Ids(s, e.id) = {} THEN {} ELSE {[s EXCEPT !.backups = {IF b.id = e.id THEN [b EXCEPT !.status = e.status] ELSE b : b \in @}]}
    [] e.k = "drop" -> {[s EXCEPT !.backups = @ \ Ids(s, e.id)]}
    [] OTHER -> {}
TSpec == SInit /\ [][SNext(Start, Step)]_<<l, S>>
Sound == \A s \in S : OneWaits(s) /\ Valid(Cfg(s.c, s.dir))
=============================================================================
