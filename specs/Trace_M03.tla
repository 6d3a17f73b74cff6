----------------------------- MODULE Trace_M03 ------------------------------
EXTENDS StateTrace, Groups
Start(e) == GInit
At(e) == <<e.p, e.g>>
Returned(T, e) == {s \in T : SetOf(e.r.o.vals) = Values(s, At(e), e.u) /\ Len(e.r.o.vals) = Cardinality(Values(s, At(e), e.u))}
Group(s, e) ==
  LET mine == {x \in s.groups : x.p = e.p}  old == {x \in mine : x.name = e.n}  V(x) == [id |-> x.id, name |-> x.name, dn |-> x.dn] IN
  IF old # {} THEN (IF e.r.e = "ok" /\ \A x \in old : e.r.o = V(x) THEN {s} ELSE {})
  ELSE IF Cardinality(mine) >= MaxGroups THEN (IF e.r.e = "bad" THEN {s} ELSE {})
  ELSE IF e.r.e = "ok" /\ e.r.o.id \in 0..(MaxGroups - 1) /\ (\A x \in mine : x.id # e.r.o.id) /\ e.r.o.name = e.n /\ e.r.o.dn = e.dn
       THEN {[s EXCEPT !.groups = @ \cup {[p |-> e.p, id |-> e.r.o.id, name |-> e.n, dn |-> e.dn]}]} ELSE {}
Step(s, e, par) ==
  IF e.k = "groups" THEN (LET mine == {[id |-> x.id, name |-> x.name, dn |-> x.dn] : x \in {x \in s.groups : x.p = e.p}} IN IF e.e = "ok" /\ SetOf(e.list) = mine /\ Len(e.list) = Cardinality(mine) THEN {s} ELSE {})
  ELSE IF e.a = "grp" THEN Group(s, e)
  ELSE IF e.r.e # "ok" THEN {}
  ELSE CASE e.a = "anon" -> Visit(s, At(e), e.u, e.r.o)
         [] e.a = "merge" -> Returned(Identify(s, At(e), e.anon, e.u, SetOf(e.vals), e.r.o.id), e)
         [] e.a = "goc" -> Returned(Arrive(s, At(e), e.u, SetOf(e.vals), e.r.o.id), e)
         [] e.a = "upd" -> Returned(Assign(s, At(e), e.u, SetOf(e.vals), e.r.o.id), e)
         [] e.a = "ver" -> Number(s, At(e), e.r.o)
         [] OTHER -> {}
TSpec == SInit /\ [][SNext(Start, Step)]_<<l, S>>
Sound == \A s \in S : OneIdentity(s) /\ GroupsFit(s)
=============================================================================
