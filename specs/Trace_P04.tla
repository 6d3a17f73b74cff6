----------------------------- MODULE Trace_P04 ------------------------------
EXTENDS StateTrace, Resources
Obj(k, p, r) == [k |-> k, p |-> p, id |-> r.id, f |-> r.f, ps |-> r.ps, by |-> r.by, upd |-> r.upd, at |-> r.at, uat |-> r.uat]
Start(e) == LET G == {Obj(g.k, g.p, g) : g \in SetOf(e.given)} IN [objs |-> G, used |-> {<<o.k, o.p, o.id>> : o \in G}]
(* a reply shows the object as it is, and nothing but its fields *)
Shows(o, r) == r.more = <<>> /\ r.p = o.p /\ Obj(o.k, o.p, r) = o
(* a query with several groups of filters, or conditions between filters: only the first group's   *)
(* filters are kept                                                                                *)
WithBody(e, G(_)) ==
  LET exact == G(e.body) IN
  IF exact = {} /\ "query" \in DOMAIN e.body /\ e.alt # e.body.query
  THEN LET T == G([e.body EXCEPT !.query = e.alt]) IN IF T # {} /\ Deviates("filter-groups") THEN T ELSE {}
  ELSE exact
Refs(s, e) == ~Missing(s, e.kind, e.p, SetOf(e.ns), SetOf(e.cs))
(* another object has the name, or the custom event names what is not there *)
Refused(s, e, others, f) == (e.ans.st = 404 /\ ~Refs(s, e)) \/ (e.ans.st = 409 /\ Clash(others, e.kind, f))
Create(s, e) ==
  LET k == e.kind
      live == Of(s, k, e.p) IN
  IF e.ans.st = 201 THEN
    LET r == e.ans.o[1]
        New(b) == New1(k, e.p, e.w, r.id, IF k = "project" THEN [Made(k, b) EXCEPT !.sdkToken = r.f.sdkToken] ELSE Made(k, b), r.at)
        G(b) == IF ~Clash(live, k, New(b).f) /\ Shows(New(b), r) THEN {Put(s, New(b))} ELSE {} IN
    IF <<k, e.p, r.id>> \notin s.used /\ r.at \in e.now - 5..e.now /\ Refs(s, e) /\ (k = "project" => r.f.sdkToken # "") THEN WithBody(e, G) ELSE {}
  ELSE IF Refused(s, e, live, Made(k, e.body)) THEN {s} ELSE {}
On(s, e, F(_)) ==
  LET found == {o \in Seen(s, e.kind, e.p, e.w) : o.id = e.id} IN
  IF found = {} THEN (IF e.ans.st = 404 THEN {s} ELSE {}) ELSE UNION {F(o) : o \in found}
Update(s, e, o) ==
  LET k == e.kind
      others == Of(s, k, e.p) \ {o} IN
  IF e.ans.st = 200 THEN
    LET r == e.ans.o[1]
        New(b) == Edited(o, e.w, Changed(k, o.f, b), r.uat)
        G(b) == IF ~Clash(others, k, New(b).f) /\ Shows(New(b), r) THEN {Put(s, New(b))} ELSE {} IN
    IF r.uat \in e.now - 5..e.now /\ Refs(s, e) THEN WithBody(e, G) ELSE {}
  ELSE IF Refused(s, e, others, Changed(k, o.f, e.body)) THEN {s} ELSE {}
Linked(s, e, o) ==
  LET n == IF e.k = "attach" THEN Attached(o, e.prop) ELSE Detached(o, e.prop) IN
  IF n = o THEN (IF e.ans.st = (IF e.k = "attach" THEN 409 ELSE 404) THEN {s} ELSE {})
  ELSE IF e.ans.st = 200 /\ Shows(n, e.ans.o[1]) THEN {Put(s, n)} ELSE {}
Same(s, e, o, t) == IF e.ans.st = 200 /\ Shows(o, e.ans.o[1]) THEN {t} ELSE {}
Listed(s, e) == LET live == Of(s, e.kind, e.p) IN e.ans.st = 200 /\ Len(e.ans.o) = Cardinality(live) /\ \A o \in live : \E r \in SetOf(e.ans.o) : r.id = o.id /\ Shows(o, r)
Step(s, e, par) ==
  CASE e.k = "create" -> Create(s, e)
    [] e.k = "update" -> LET F(o) == Update(s, e, o) IN On(s, e, F)
    [] e.k = "delete" -> LET F(o) == Same(s, e, o, Gone(s, o)) IN On(s, e, F)
    [] e.k = "get" -> LET F(o) == Same(s, e, o, s) IN On(s, e, F)
    [] e.k \in {"attach", "detach"} -> LET F(o) == Linked(s, e, o) IN On(s, e, F)
    [] e.k = "list" -> IF Listed(s, e) THEN {s} ELSE {}
    [] OTHER -> {}
TSpec == SInit /\ [][SNext(Start, Step)]_<<l, S>>
Sound == \A s \in S : OneName(s)
=============================================================================
