----------------------------- MODULE Trace_M05 ------------------------------
EXTENDS StateTrace, CustomEvents
Start(e) == [max |-> e.max, evs |-> {}, defs |-> {}, used |-> {}]
Names(s, name) == {c \in s.defs : c.name = name}
Put(s, d) == [s EXCEPT !.defs = {c \in @ : c.id # d.id} \cup {d}, !.used = @ \cup {d.id}]
Create(s, e) ==
  LET P == Problems(s.evs, s.defs, e.refs, 0, s.max) \cup (IF Names(s, e.name) # {} THEN {"exists"} ELSE {})
      d == [id |-> e.r.o.id, name |-> e.name, refs |-> e.refs] IN
  IF e.r.e = "ok" THEN (IF P = {} /\ d = e.r.o /\ d.id \notin s.used THEN {Put(s, d)} ELSE {}) ELSE IF e.r.e \in P THEN {s} ELSE {}
Update(s, e) ==
  LET old == Customs(s.defs, e.id) IN
  IF old = {} THEN (IF e.r.e = "notfound" THEN {s} ELSE {})
  ELSE LET P == Problems(s.evs, s.defs, e.refs, e.id, s.max)
           d == [(CHOOSE c \in old : TRUE) EXCEPT !.refs = e.refs]
           far == Spoiled(s.evs, s.defs, e.id, e.refs, s.max) IN
       IF e.r.e = "ok" THEN (IF P = {} /\ d = e.r.o /\ (far = {} \/ Deviates("nest-through-child")) THEN {Put(s, d)} ELSE {})
       ELSE IF e.r.e \in P \/ (far # {} /\ e.r.e \in {"bad", "exists"}) THEN {s} ELSE {}
Delete(s, e) == LET old == Customs(s.defs, e.id) IN
  IF old = {} THEN (IF e.r.e = "notfound" THEN {s} ELSE {}) ELSE IF e.r.e = "ok" /\ e.r.o \in old THEN {[s EXCEPT !.defs = @ \ old]} ELSE {}
List(s, e) == IF e.e = "ok" /\ SetOf(e.list) = s.defs /\ Len(e.list) = Cardinality(s.defs) THEN {s} ELSE {}
Step(s, e, par) ==
  CASE e.k = "reg" -> {[s EXCEPT !.evs = @ \cup {[id |-> e.id, n |-> e.n]}]}
    [] e.k = "create" -> Create(s, e)
    [] e.k = "update" -> Update(s, e)
    [] e.k = "delete" -> Delete(s, e)
    [] e.k = "list" -> List(s, e)
    [] OTHER -> {}
TSpec == SInit /\ [][SNext(Start, Step)]_<<l, S>>
Sound == \A s \in S : Acyclic(s.defs, s.max)
=============================================================================
