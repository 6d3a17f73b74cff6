----------------------------- MODULE MC_Resources -----------------------------
(* Design: a name is one object's, an id is never given out again, a change touches nothing but     *)
(* what it sets, and who made an object and where stays. A bookmark shows its maker's query only.   *)
EXTENDS Resources, TLC
CONSTANTS Kinds, Projects, Ids, People, Values, Depth
VARIABLES s, did
Texts == [name |-> Values, query |-> Values, status |-> {"=1"}]
Bodies(k, open) == LET F == {f \in open : f \in DOMAIN Texts} IN UNION {[D -> UNION {Texts[f] : f \in D}] : D \in SUBSET F}
Given == [k |-> "event", p |-> 1, id |-> 0, f |-> [x \in Fields("event") |-> IF x = "name" THEN "=e" ELSE ""], ps |-> <<>>, by |-> 0, upd |-> 0, at |-> 0, uat |-> 0]
Init == s = [objs |-> {Given}, used |-> {<<"event", 1, 0>>}] /\ did = [op |-> "none", o |-> [k |-> "event", p |-> 1, id |-> 0]]
Step(op, o, t) == s' = t /\ did' = [op |-> op, o |-> [k |-> o.k, p |-> o.p, id |-> o.id]]
Create == \E k \in Kinds, p \in Projects, w \in People, i \in Ids : <<k, p, i>> \notin s.used /\ \E b \in Bodies(k, Fields(k)) :
  LET o == New1(k, p, w, i, Made(k, b), 1) IN ~Clash(Of(s, k, p), k, o.f) /\ ~Missing(s, k, p, IF k = "cevent" THEN {"=e"} ELSE {}, {}) /\ Step("create", o, Put(s, o))
Update == \E o \in s.objs, w \in People : \E b \in Bodies(o.k, Open(o.k)) :
  LET n == Edited(o, w, Changed(o.k, o.f, b), 2) IN Open(o.k) # {} /\ ~Clash(Of(s, o.k, o.p) \ {o}, o.k, n.f) /\ Step("update", o, Put(s, n))
Delete == \E o \in s.objs : Step("delete", o, Gone(s, o))
Link == \E o \in Of(s, "event", 1), i \in 1..2 : Step("link", o, Put(s, IF Holds(o, i) THEN Detached(o, i) ELSE Attached(o, i)))
Next == Create \/ Update \/ Delete \/ Link
Spec == Init /\ [][Next]_<<s, did>>
Small == Cardinality(s.objs) <= Depth /\ Cardinality(s.used) <= Depth + 1
At(T, o) == {x \in T.objs : x.k = o.k /\ x.p = o.p /\ x.id = o.id}
OneId == \A a, b \in s.objs : (a.k = b.k /\ a.p = b.p /\ a.id = b.id) => a = b
Own == \A w \in People, p \in Projects : \A o \in Seen(s, "bookmark", p, w) : o.by = w
Linked == \A o \in s.objs : Cardinality({o.ps[i] : i \in DOMAIN o.ps}) = Len(o.ps)
Laws == OneName(s) /\ OneId /\ Own /\ Linked
(* what happened to one object left the others as they were; it keeps its maker, and a deleted one never returns *)
Alone == [][LET o == did'.o IN s.objs \ At(s, o) = s'.objs \ At(s', o)
            /\ (did'.op = "create" => At(s, o) = {} /\ Cardinality(At(s', o)) = 1)
            /\ (did'.op = "update" => \A a \in At(s, o), b \in At(s', o) : a.by = b.by /\ a.at = b.at /\ a.ps = b.ps /\ \A x \in Fields(o.k) \ Open(o.k) : a.f[x] = b.f[x])
            /\ (did'.op = "delete" => At(s', o) = {})]_<<s, did>>
NeverAgain == [][\A o \in s'.objs : At(s, o) = {} => <<o.k, o.p, o.id>> \notin s.used]_<<s, did>>
=============================================================================
