----------------------------- MODULE MC_Ingest ------------------------------
(* All histories of a few requests about a few people: what is stored for whom. *)
EXTENDS Ingest, Sequences, TLC
CONSTANTS Known, Visitors, Names, Depth
VARIABLES s, log, ends                           \* rows stored so far, as <<record, u, a, uid, begin>>; how many sessions ended
vars == <<s, log, ends>>
P == 1
Props == {{}, {<<"x", "n", "1">>}, {<<"x", "s", "1">>}, {<<"x", "n", "2">>}}
Pool == 1..(Cardinality(Known) + Cardinality(Visitors))
Init == s = [IInit EXCEPT !.g.groups = {[p |-> P, id |-> 0, name |-> "user"]}] /\ log = <<>> /\ ends = 0
Next1(u, a, ps) ==
  LET q == [p |-> P, u |-> u, a |-> a, ev |-> "e", at |-> "0", props |-> ps, sys |-> {}, utm |-> {}, hasg |-> FALSE, groups |-> {}] IN
  /\ ~Clash(s, P, -1, ps)
  /\ \E uid \in Pool : \E t \in Persons(s, q, uid) :
       LET new == OpensSession(t, P, uid)  n == Len(log) IN
       /\ s' = [Attached(Declared(t, P, -1, ps), P, "e", {x[1] : x \in ps}) EXCEPT !.sess = @ \cup {<<P, uid>>}]
       /\ log' = log \o (IF new THEN <<[u |-> u, a |-> a, uid |-> uid, begin |-> TRUE, vals |-> ps]>> ELSE <<>>) \o <<[u |-> u, a |-> a, uid |-> uid, begin |-> FALSE, vals |-> ps]>>
       /\ UNCHANGED ends
Profile(u, ps) ==
  /\ ~Clash(s, P, 0, ps)
  /\ \E uid \in Pool : \E g \in Arrive(s.g, Users(P), u, {}, uid) : s' = Newer(Declared([s EXCEPT !.g = g], P, 0, ps), P, 0, u, ps)
  /\ UNCHANGED <<log, ends>>
Company(n) ==
  /\ ~TooManyGroups(s, P, {n})
  /\ \E i \in 0..(MaxGroups - 1) : \E t \in Numbered(s, P, {<<x.id, x.name>> : x \in s.g.groups} \cup {<<i, n>>}, {n}) : s' = t
  /\ UNCHANGED <<log, ends>>
End == \E x \in s.sess : s' = [s EXCEPT !.sess = @ \ {x}] /\ ends' = ends + 1 /\ UNCHANGED log
Step == (\E u \in Known \cup {""}, a \in Visitors \cup {""}, ps \in Props : (u # "" \/ a # "") /\ Next1(u, a, ps)) \/ (\E u \in Known, ps \in Props : Profile(u, ps)) \/ (\E n \in Names : Company(n)) \/ End
Spec == Init /\ [][Step]_vars
Bound == TLCGet("level") <= Depth
Rows == {log[i] : i \in 1..Len(log)}
(* one id per known person whatever the order; of a visitor as long as nobody's id came with it *)
SamePerson == \A x, y \in Rows : (x.u # "" /\ x.u = y.u) => x.uid = y.uid
SameVisitor == \A x, y \in Rows : (x.u = "" /\ y.u = "" /\ x.a = y.a) => x.uid = y.uid
(* somebody first known together with a visitor goes on under the visitor's id *)
TakesOver == [][\A u \in Known, a \in Visitors : (User(s.g, Users(P), u) = {} /\ \E i \in (Len(log) + 1)..Len(log') : log'[i].u = u /\ log'[i].a = a) =>
                  \A x \in Anon(s.g, Users(P), a) : log'[Len(log')].uid = x.id]_vars
OneType == \A x, y \in s.props : x[1] = y[1] /\ x[2] = y[2] /\ x[3] = y[3] => x[4] = y[4]
Typed == \A x \in Rows : \A v \in x.vals : <<P, -1, v[1], v[2]>> \in s.props
Sessions == Cardinality({i \in 1..Len(log) : log[i].begin}) = ends + Cardinality(s.sess)
Identities == OneIdentity(s.g) /\ GroupsFit(s.g)
Newest == \A x, y \in s.vals : x[2] = y[2] /\ x[3] = y[3] /\ x[4] = y[4] => x = y
=============================================================================
