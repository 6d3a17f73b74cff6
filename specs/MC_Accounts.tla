----------------------------- MODULE MC_Accounts ----------------------------
EXTENDS Accounts
CONSTANTS As, Os, Names, Roles, Steps
VARIABLES s, n
Init == s = AInit /\ n = 0
NewAcc(i, m) == [id |-> i, email |-> m, orgs |-> {}]
NewOrg(i, m) == [id |-> i, name |-> m, members |-> {}]
Next == /\ n < Steps /\ n' = n + 1
        /\ \/ \E i \in As, m \in Names : IsFresh(s, "acc", i) /\ (\A x \in s.accs : x.email # m) /\ s' = Use([s EXCEPT !.accs = @ \cup {NewAcc(i, m)}], "acc", i)
           \/ \E i \in Os, m \in Names, a \in s.accs : IsFresh(s, "org", i) /\ (\A x \in s.orgs : x.name # m) /\ s' = Join(Use([s EXCEPT !.orgs = @ \cup {NewOrg(i, m)}], "org", i), i, a.id, "owner")
           \/ \E o \in s.orgs, a \in s.accs, r \in Roles : s' = Join(s, o.id, a.id, r)
           \/ \E o \in s.orgs, a \in s.accs : Member(s, o.id, a.id) /\ s' = Leave(s, o.id, a.id)
           \/ \E a \in s.accs : s' = DropAcc(s, a.id)
           \/ \E o \in s.orgs : s' = DropOrg(s, o.id)
Spec == Init /\ [][Next]_<<s, n>>
Laws == Agree(s) /\ Unique(s)
=============================================================================
