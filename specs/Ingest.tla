------------------------------- MODULE Ingest -------------------------------
(* What the ingestion endpoints do with an event or a group record: who it is about, what it      *)
(* registers, which rows it stores. Tables: -1 are the events, 0..4 the groups of a project.      *)
(* A request q is a record: p (the token's project, 0 if none has it), u, a (external and         *)
(* anonymous id, "" if absent), ev, at, props (<<name, type, value>>), sys (what is known from     *)
(* the address and the user agent), utm, hasg, groups (<<name, key>>); a group record has g.       *)
EXTENDS Groups, Integers
IInit == [g |-> GInit, props |-> {}, evs |-> {}, vals |-> {}, sess |-> {}, rows |-> {}, n |-> 0, last |-> {}, cnt |-> {},
          may |-> [props |-> {}, evs |-> {}, groups |-> {}]]
Begin == "Session Begin"
Users(p) == <<p, 0>>
(* ---- catalogue *)
TypesOf(s, p, w, n) == {x[4] : x \in {x \in s.props : x[1] = p /\ x[2] = w /\ x[3] = n}}
Clash(s, p, w, ps) == \E x \in ps : \E t \in TypesOf(s, p, w, x[1]) : t # x[2]
Declared(s, p, w, ps) == [s EXCEPT !.props = @ \cup {<<p, w, x[1], x[2]>> : x \in {x \in ps : TypesOf(s, p, w, x[1]) = {}}}]
EventProps(s, p, ev) == UNION {x[3] : x \in {x \in s.evs : x[1] = p /\ x[2] = ev}}
Attached(s, p, ev, names) == [s EXCEPT !.evs = {x \in @ : x[1] # p \/ x[2] # ev} \cup {<<p, ev, EventProps(s, p, ev) \cup names>>}]
GroupIds(s, p, name) == {x.id : x \in {x \in s.g.groups : x.p = p /\ x.name = name}}
GroupNames(s, p) == {x.name : x \in {x \in s.g.groups : x.p = p}}
TooManyGroups(s, p, names) == Cardinality(GroupNames(s, p) \cup names) > MaxGroups
(* the groups named get an id each: a new one the first that isn't taken *)
Numbered(s, p, gids, names) ==
  LET now == {[p |-> p, id |-> x[1], name |-> x[2]] : x \in gids}  old == {x \in s.g.groups : x.p = p} IN
  IF old \subseteq now /\ {x.name : x \in now \ old} = names \ {x.name : x \in old} /\ {x.id : x \in now} = 0..(Cardinality(now) - 1)
     /\ Cardinality({x.name : x \in now}) = Cardinality(now)
  THEN {[s EXCEPT !.g.groups = @ \cup now]} ELSE {}
GroupId(s, p, name) == CHOOSE i \in GroupIds(s, p, name) : TRUE
(* ---- what goes into a row *)
First(a, b) == a \cup {x \in b : ~\E y \in a : y[1] = x[1]}
Stated(q) == First(q.props, q.sys)
ValuesOf(s, p, g, key) == {<<x[4], x[5], x[6]>> : x \in {x \in s.vals : x[1] = p /\ x[2] = g /\ x[3] = key}}
Newer(s, p, g, key, ps) == [s EXCEPT !.vals = {x \in @ : x[1] # p \/ x[2] # g \/ x[3] # key \/ ~\E y \in ps : y[1] = x[4]} \cup {<<p, g, key, y[1], y[2], y[3]>> : y \in ps}]
OnRow(s, q) ==
  LET At(g, key) == {<<g, x[1], x[2], x[3]>> : x \in ValuesOf(s, q.p, g, key)} IN
  (IF q.u = "" THEN {} ELSE At(0, q.u)) \cup UNION {At(GroupId(s, q.p, x[1]), x[2]) : x \in q.groups}
Later(s, p, t, n) == \A x \in s.last : x[1] = p /\ x[2] = t => x[3] < n
Recorded(s, p, t, n) == [s EXCEPT !.last = {x \in @ : x[1] # p \/ x[2] # t} \cup {<<p, t, n>>}]
(* a project knows how many events it was sent *)
Sent(s, p) == Cardinality({x \in s.cnt : x[1] = p})
Counted(s, p) == [s EXCEPT !.cnt = @ \cup {<<p, Sent(s, p) + 1>>}]
OpensSession(s, p, uid) == <<p, uid>> \notin s.sess
(* ---- who it is about *)
Persons(s, q, uid) ==
  {[s EXCEPT !.g = g] : g \in
     IF q.u # "" /\ q.a # "" THEN Identify(s.g, Users(q.p), q.a, q.u, {}, uid)
     ELSE IF q.u # "" THEN Arrive(s.g, Users(q.p), q.u, {}, uid)
     ELSE Visit(s.g, Users(q.p), q.a, uid)}
Member(s, p, g, key, id) == {[s EXCEPT !.g = x] : x \in Arrive(s.g, <<p, g>>, key, {}, id)}
KnownAs(s, p, g, id) == {x.u : x \in {x \in s.g.users \cup s.g.anons : x.at = <<p, g>> /\ x.id = id}}
=============================================================================
