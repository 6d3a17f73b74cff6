------------------------------- MODULE Groups -------------------------------
(* Identities of groups (users, companies ...): external ids and anonymous ids of a project's      *)
(* group map to internal ids; a group has property values; a project has at most five groups.      *)
EXTENDS Naturals, FiniteSets
MaxGroups == 5
GInit == [users |-> {}, anons |-> {}, groups |-> {}, vers |-> {}]
User(s, at, u) == {x \in s.users : x.at = at /\ x.u = u}             \* at = <<project, group>>
Anon(s, at, u) == {x \in s.anons : x.at = at /\ x.u = u}
Ids(s, at) == {x.id : x \in {x \in s.users \cup s.anons : x.at = at}}
Seen(s, at, u, id) == [s EXCEPT !.anons = @ \cup {[at |-> at, u |-> u, id |-> id, vals |-> {}]}]
Joined(s, at, u, id, vals) == [s EXCEPT !.users = @ \cup {[at |-> at, u |-> u, id |-> id, vals |-> vals]}]
(* anonymous visitor: known, or given an id nobody has *)
Visit(s, at, a, id) == IF Anon(s, at, a) # {} THEN (IF \E x \in Anon(s, at, a) : x.id = id THEN {s} ELSE {}) ELSE IF id \in Ids(s, at) THEN {} ELSE {Seen(s, at, a, id)}
(* a user identifies as a visitor: a known user stays, a new one takes over the visitor's id *)
Identify(s, at, a, u, vals, id) ==
  IF User(s, at, u) # {} THEN (IF \E x \in User(s, at, u) : x.id = id THEN {s} ELSE {})
  ELSE {Joined(t, at, u, id, vals) : t \in Visit(s, at, a, id)}
Arrive(s, at, u, vals, id) ==
  IF User(s, at, u) # {} THEN (IF \E x \in User(s, at, u) : x.id = id THEN {s} ELSE {}) ELSE IF id \in Ids(s, at) THEN {} ELSE {Joined(s, at, u, id, vals)}
Over(old, new) == {v \in old : ~\E w \in new : w[1] = v[1]} \cup new
Assign(s, at, u, vals, id) ==
  IF User(s, at, u) = {} THEN Arrive(s, at, u, vals, id)
  ELSE {[s EXCEPT !.users = (@ \ {x}) \cup {[x EXCEPT !.vals = Over(@, vals)]}] : x \in {x \in User(s, at, u) : x.id = id}}
Values(s, at, u) == UNION {x.vals : x \in User(s, at, u)}
Number(s, at, n) == IF \E v \in s.vers : v.at = at /\ v.n >= n THEN {} ELSE {[s EXCEPT !.vers = {v \in @ : v.at # at} \cup {[at |-> at, n |-> n]}]}
(* one internal id per external id; an id belongs to one visitor and to users who were that visitor *)
OneIdentity(s) ==
  /\ \A x, y \in s.users : x.at = y.at /\ x.u = y.u => x = y
  /\ \A x, y \in s.anons : x.at = y.at /\ (x.u = y.u \/ x.id = y.id) => x = y
  /\ \A x, y \in s.users : x.at = y.at /\ x.id = y.id /\ x # y => \E a \in s.anons : a.at = x.at /\ a.id = x.id
GroupsFit(s) == \A x \in s.groups : x.id < MaxGroups /\ \A y \in s.groups : x.p = y.p /\ (x.id = y.id \/ x.name = y.name) => x = y
=============================================================================
