----------------------------- MODULE Catalogue ------------------------------
(* The named objects of a project: events, custom events, event and group properties, reports and *)
(* dashboards. State: live objects, and every id ever given out per kind and project.              *)
EXTENDS Naturals, Sequences, FiniteSets
Named == {"event", "cevent", "eprop", "g0prop", "g1prop"}            \* kinds whose names are unique
Displayed == {"event", "eprop", "g0prop", "g1prop"}                  \* kinds with unique display names
Props == {"eprop", "g0prop", "g1prop"}
CInit == [objs |-> {}, used |-> {}]
Live(s, kind, p) == {o \in s.objs : o.kind = kind /\ o.p = p}
(* would an object with this name and display name be ambiguous next to the others? *)
Clash(others, kind, name, dn) ==
  \/ kind \in Named /\ \E o \in others : o.name = name
  \/ kind \in Displayed /\ dn # "" /\ \E o \in others : o.dn = dn
New(s, o) == [s EXCEPT !.objs = @ \cup {o}, !.used = @ \cup {<<o.kind, o.p, o.id>>}]
Fresh(s, kind, p, id) == <<kind, p, id>> \notin s.used
Swap(s, o, n) == [s EXCEPT !.objs = (@ \ {o}) \cup {n}]
Gone(s, o) == [s EXCEPT !.objs = @ \ {o}]
(* what an update makes of an object *)
Renamed(o, setn, name, setd, dn, q) ==
  [o EXCEPT !.name = IF setn /\ o.kind \notin Props THEN name ELSE @,
            !.dn = IF setd /\ o.kind \in Displayed THEN dn ELSE @,
            !.q = IF o.kind = "report" THEN q ELSE @]
UniqueNames(s) == \A a, b \in s.objs : a # b /\ a.kind = b.kind /\ a.p = b.p => ~Clash({a}, b.kind, b.name, b.dn)
UniqueIds(s) == \A a, b \in s.objs : a.kind = b.kind /\ a.p = b.p /\ a.id = b.id => a = b
Remembered(s) == \A o \in s.objs : <<o.kind, o.p, o.id>> \in s.used
=============================================================================
