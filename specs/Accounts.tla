------------------------------ MODULE Accounts ------------------------------
(* Accounts, organizations and their members, projects and teams. *)
EXTENDS Naturals, Sequences, FiniteSets
AInit == [accs |-> {}, orgs |-> {}, prjs |-> {}, teams |-> {}, used |-> {}]
Acc(s, id) == {x \in s.accs : x.id = id}
Org(s, id) == {x \in s.orgs : x.id = id}
Prj(s, id) == {x \in s.prjs : x.id = id}
Team(s, org, id) == {x \in s.teams : x.org = org /\ x.id = id}
Use(s, what, id) == [s EXCEPT !.used = @ \cup {<<what, id>>}]
IsFresh(s, what, id) == <<what, id>> \notin s.used
(* both sides of a membership change together *)
Leave(s, org, acc) == [s EXCEPT !.accs = {IF x.id = acc THEN [x EXCEPT !.orgs = {m \in @ : m[1] # org}] ELSE x : x \in @},
                                !.orgs = {IF x.id = org THEN [x EXCEPT !.members = {m \in @ : m[1] # acc}] ELSE x : x \in @}]
Join(s, org, acc, role) == LET t == Leave(s, org, acc) IN
  [t EXCEPT !.accs = {IF x.id = acc THEN [x EXCEPT !.orgs = @ \cup {<<org, role>>}] ELSE x : x \in @},
            !.orgs = {IF x.id = org THEN [x EXCEPT !.members = @ \cup {<<acc, role>>}] ELSE x : x \in @}]
Member(s, org, acc) == \E x \in Org(s, org) : \E m \in x.members : m[1] = acc
DropAcc(s, id) == [s EXCEPT !.accs = @ \ Acc(s, id), !.orgs = {[x EXCEPT !.members = {m \in @ : m[1] # id}] : x \in @}]
DropOrg(s, id) == [s EXCEPT !.orgs = @ \ Org(s, id), !.accs = {[x EXCEPT !.orgs = {m \in @ : m[1] # id}] : x \in @}]
Agree(s) ==
  /\ \A a \in s.accs : \A m \in a.orgs : \E o \in Org(s, m[1]) : <<a.id, m[2]>> \in o.members
  /\ \A o \in s.orgs : \A m \in o.members : \E a \in Acc(s, m[1]) : <<o.id, m[2]>> \in a.orgs
  /\ \A a \in s.accs : \A m, n \in a.orgs : m[1] = n[1] => m = n
Unique(s) ==
  /\ \A x, y \in s.accs : x.id = y.id \/ x.email = y.email => x = y
  /\ \A x, y \in s.orgs : x.id = y.id \/ x.name = y.name => x = y
  /\ \A x, y \in s.prjs : x.id = y.id \/ x.name = y.name \/ x.token = y.token => x = y
  /\ \A x, y \in s.teams : x.org = y.org /\ (x.id = y.id \/ x.name = y.name) => x = y
=============================================================================
