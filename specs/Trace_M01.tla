----------------------------- MODULE Trace_M01 ------------------------------
EXTENDS StateTrace, Catalogue
Start(e) == CInit
Same(o, r) == /\ r.id = o.id /\ r.p = o.p /\ r.name = o.name /\ r.dn = o.dn /\ r.q = o.q
              /\ SetOf(r.ps) = o.ps /\ Len(r.ps) = Cardinality(o.ps)
Obj(e, id) == [kind |-> e.kind, p |-> e.p, id |-> id, name |-> e.name, dn |-> IF e.kind \in Displayed THEN e.dn ELSE "", ps |-> {}, q |-> IF e.kind = "report" THEN e.q ELSE ""]
NoBase(s, e) == e.kind = "cevent" /\ ~\E o \in Live(s, "event", e.p) : o.name = "base"
Create(s, e) ==
  LET clash == Clash(Live(s, e.kind, e.p), e.kind, e.name, e.dn) IN
  IF e.r.e = "ok" THEN (IF ~clash /\ ~NoBase(s, e) /\ Fresh(s, e.kind, e.p, e.r.o.id) /\ Same(Obj(e, e.r.o.id), e.r.o) THEN {New(s, Obj(e, e.r.o.id))} ELSE {})
  ELSE IF (e.r.e = "exists" /\ clash) \/ (e.r.e = "notfound" /\ NoBase(s, e)) THEN {s} ELSE {}
GetCreate(s, e) ==
  LET old == {o \in Live(s, e.kind, e.p) : o.name = e.name} IN
  IF old = {} THEN Create(s, e) ELSE IF e.r.e = "ok" /\ \A o \in old : Same(o, e.r.o) THEN {s} ELSE {}
OnObject(s, e, F(_)) ==
  LET found == {o \in Live(s, e.kind, e.p) : o.id = e.id} IN
  IF found = {} THEN (IF e.r.e = "notfound" THEN {s} ELSE {}) ELSE UNION {F(o) : o \in found}
Update(s, e, o) ==
  LET n == Renamed(o, e.setn, e.name, e.setd, e.dn, e.q)
      clash == Clash(Live(s, e.kind, e.p) \ {o}, e.kind, n.name, n.dn) IN
  IF e.r.e = "ok" THEN (IF ~clash /\ Same(n, e.r.o) THEN {Swap(s, o, n)} ELSE {}) ELSE IF e.r.e = "exists" /\ clash THEN {s} ELSE {}
Delete(s, e, o) == IF e.r.e = "ok" /\ Same(o, e.r.o) THEN {Gone(s, o)} ELSE {}
Attach(s, e, o) == LET n == [o EXCEPT !.ps = @ \cup {e.prop}] IN
  IF e.r.e = "ok" THEN (IF e.prop \notin o.ps /\ Same(n, e.r.o) THEN {Swap(s, o, n)} ELSE {}) ELSE IF e.r.e = "exists" /\ e.prop \in o.ps THEN {s} ELSE {}
Detach(s, e, o) == LET n == [o EXCEPT !.ps = @ \ {e.prop}] IN
  IF e.r.e = "ok" THEN (IF e.prop \in o.ps /\ Same(n, e.r.o) THEN {Swap(s, o, n)} ELSE {}) ELSE IF e.r.e = "notfound" /\ e.prop \notin o.ps THEN {s} ELSE {}
TryAttach(s, e, o) == IF e.r.e = "ok" THEN {Swap(s, o, [o EXCEPT !.ps = @ \cup {e.prop, e.prop + 1}])} ELSE {}
Probe(s, e) ==
  LET live == Live(s, e.kind, e.p)
      Finds(r, want) == IF want = {} THEN r.e = "notfound" ELSE r.e = "ok" /\ \A o \in want : Same(o, r.o)
      ok == /\ Len(e.list) = Cardinality(live)
            /\ \A o \in live : \E i \in 1..Len(e.list) : e.list[i].id = o.id /\ Same(o, e.list[i])
            /\ \A i \in 1..Len(e.names) : Finds(e.names[i][2], {o \in live : o.name = e.names[i][1]})
            /\ \A i \in 1..Len(e.ids) : Finds(e.ids[i][2], {o \in live : o.id = e.ids[i][1]})
  IN IF ok THEN {s} ELSE {}
Step(s, e, par) ==
  IF e.k = "probe" THEN Probe(s, e)
  ELSE CASE e.a = "create" -> Create(s, e)
         [] e.a = "getcreate" -> GetCreate(s, e)
         [] e.a = "update" -> LET F(o) == Update(s, e, o) IN OnObject(s, e, F)
         [] e.a = "delete" -> LET F(o) == Delete(s, e, o) IN OnObject(s, e, F)
         [] e.a = "attach" -> LET F(o) == Attach(s, e, o) IN OnObject(s, e, F)
         [] e.a = "detach" -> LET F(o) == Detach(s, e, o) IN OnObject(s, e, F)
         [] e.a = "tryattach" -> LET F(o) == TryAttach(s, e, o) IN OnObject(s, e, F)
         [] OTHER -> {}
TSpec == SInit /\ [][SNext(Start, Step)]_<<l, S>>
(* the specification itself keeps names and ids unambiguous on every recorded history *)
Sound == \A s \in S : UniqueIds(s) /\ UniqueNames(s)
=============================================================================
