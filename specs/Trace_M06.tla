----------------------------- MODULE Trace_M06 ------------------------------
EXTENDS StateTrace, Accounts
Start(e) == AInit
AV(o) == [o EXCEPT !.orgs = SetOf(@), !.projs = SetOf(@), !.teams = SetOf(@)]
OV(o) == [o EXCEPT !.members = SetOf(@)]
Lists(o) == Len(o.orgs) = Cardinality(SetOf(o.orgs))
Is(e, what) == e.r.e = what
When(c, T) == IF c THEN T ELSE {}
Sets(e) == SetOf(e.set)
(* q's field f if the update sets it *)
Pick(e, old, f) == IF f \in Sets(e) THEN e.q[f] ELSE old[f]
AccCreate(s, e) == LET clash == \E x \in s.accs : x.email = e.q.email IN
  IF Is(e, "ok") THEN LET n == [AV(e.q) EXCEPT !.id = e.r.o.id] IN When(~clash /\ IsFresh(s, "acc", n.id) /\ AV(e.r.o) = n, {Use([s EXCEPT !.accs = @ \cup {n}], "acc", n.id)})
  ELSE When(Is(e, "exists") /\ clash, {s})
AccUpdate(s, e, x) ==
  LET n == [x EXCEPT !.email = Pick(e, x, "email"), !.name = Pick(e, x, "name"), !.role = Pick(e, x, "role"), !.fp = Pick(e, x, "fp"), !.fe = Pick(e, x, "fe"), !.pw = Pick(e, x, "pw"),
              !.projs = IF "projs" \in Sets(e) THEN SetOf(e.q.projs) ELSE @, !.teams = IF "teams" \in Sets(e) THEN SetOf(e.q.teams) ELSE @]
      clash == \E y \in s.accs \ {x} : y.email = n.email IN
  IF Is(e, "ok") THEN When(~clash /\ AV(e.r.o) = n, {[s EXCEPT !.accs = (@ \ {x}) \cup {n}]}) ELSE When(Is(e, "exists") /\ clash, {s})
OrgCreate(s, e) ==
  LET clash == \E x \in s.orgs : x.name = e.name  nobody == Acc(s, e.by) = {} IN
  IF Is(e, "ok") THEN LET id == e.r.o.id IN When(~clash /\ ~nobody /\ IsFresh(s, "org", id) /\ OV(e.r.o) = [id |-> id, name |-> e.name, members |-> {<<e.by, "owner">>}],
       {Join(Use([s EXCEPT !.orgs = @ \cup {[id |-> id, name |-> e.name, members |-> {}]}], "org", id), id, e.by, "owner")})
  ELSE When((Is(e, "exists") /\ clash) \/ (Is(e, "notfound") /\ nobody), {s})
OrgUpdate(s, e, x) == LET n == [x EXCEPT !.name = IF e.setn THEN e.name ELSE @]  clash == \E y \in s.orgs \ {x} : y.name = n.name IN
  IF Is(e, "ok") THEN When(~clash /\ OV(e.r.o) = n, {[s EXCEPT !.orgs = (@ \ {x}) \cup {n}]}) ELSE When(Is(e, "exists") /\ clash, {s})
AddMember(s, e) == LET in == Member(s, e.id, e.m)  none == Org(s, e.id) = {} \/ Acc(s, e.m) = {} IN
  IF Is(e, "ok") THEN When(~in /\ ~none, {Join(s, e.id, e.m, e.role)}) ELSE When((Is(e, "exists") /\ in) \/ (Is(e, "notfound") /\ none), {s})
RemoveMember(s, e) == IF Member(s, e.id, e.m) THEN When(Is(e, "ok"), {Leave(s, e.id, e.m)}) ELSE When(Is(e, "notfound"), {s})
ChangeRole(s, e) == IF Member(s, e.id, e.m) THEN When(Is(e, "ok"), {Join(s, e.id, e.m, e.role)}) ELSE When(Is(e, "notfound"), {s})
PV(q, id, cnt) == [id |-> id, name |-> q.name, org |-> q.org, token |-> q.token, desc |-> q.desc, tags |-> q.tags, dur |-> q.dur, cnt |-> cnt]
PrjClash(P, n) == \E y \in P : y.name = n.name \/ y.token = n.token
PrjCreate(s, e) == LET n == PV(e.q, IF Is(e, "ok") THEN e.r.o.id ELSE 0, 0)  clash == PrjClash(s.prjs, n) IN
  IF Is(e, "ok") THEN When(~clash /\ IsFresh(s, "prj", n.id) /\ e.r.o = n, {Use([s EXCEPT !.prjs = @ \cup {n}], "prj", n.id)}) ELSE When(Is(e, "exists") /\ clash, {s})
PrjUpdate(s, e, x) ==
  LET n == [x EXCEPT !.name = Pick(e, x, "name"), !.desc = Pick(e, x, "desc"), !.tags = Pick(e, x, "tags"), !.token = Pick(e, x, "token"), !.dur = Pick(e, x, "dur")]
      clash == PrjClash(s.prjs \ {x}, n) IN
  IF Is(e, "ok") THEN When(~clash /\ e.r.o = n, {[s EXCEPT !.prjs = (@ \ {x}) \cup {n}]}) ELSE When(Is(e, "exists") /\ clash, {s})
TeamCreate(s, e) == LET clash == \E x \in s.teams : x.org = e.org /\ x.name = e.name IN
  IF Is(e, "ok") THEN LET n == [id |-> e.r.o.id, name |-> e.name, org |-> e.org] IN When(~clash /\ IsFresh(s, "team" \o ToString(e.org), n.id) /\ e.r.o = n, {Use([s EXCEPT !.teams = @ \cup {n}], "team" \o ToString(e.org), n.id)})
  ELSE When(Is(e, "exists") /\ clash, {s})
TeamUpdate(s, e, x) == LET n == [x EXCEPT !.name = e.name]  clash == \E y \in s.teams \ {x} : y.org = x.org /\ y.name = e.name IN
  IF Is(e, "ok") THEN When(~clash /\ e.r.o = n, {[s EXCEPT !.teams = (@ \ {x}) \cup {n}]}) ELSE When(Is(e, "exists") /\ clash, {s})
On(s, e, found, F(_)) == IF found = {} THEN When(Is(e, "notfound"), {s}) ELSE UNION {F(x) : x \in found}
Get(s, e, found, V(_)) == IF found = {} THEN When(Is(e, "notfound"), {s}) ELSE When(Is(e, "ok") /\ \A x \in found : V(e.r.o) = x, {s})
Id(x) == x
ListOk(s, v) ==
  /\ {AV(v.accs[i]) : i \in 1..Len(v.accs)} = s.accs /\ Len(v.accs) = Cardinality(s.accs) /\ \A i \in 1..Len(v.accs) : Lists(v.accs[i])
  /\ {OV(v.orgs[i]) : i \in 1..Len(v.orgs)} = s.orgs /\ Len(v.orgs) = Cardinality(s.orgs)
  /\ \A i \in 1..Len(v.orgs) : Len(v.orgs[i].members) = Cardinality(SetOf(v.orgs[i].members))
  /\ SetOf(v.prjs) = s.prjs /\ Len(v.prjs) = Cardinality(s.prjs)
  /\ \A o \in 1..3 : LET t == {x \in s.teams : x.org = o} IN SetOf(v.teams[o]) = t /\ Len(v.teams[o]) = Cardinality(t)
  /\ \A i \in 1..Len(v.emails) : LET x == {a.id : a \in {a \in s.accs : a.email = v.emails[i][1]}} IN x = (IF v.emails[i][2] = 0 THEN {} ELSE {v.emails[i][2]})
  /\ \A i \in 1..Len(v.tokens) : LET x == {a.id : a \in {a \in s.prjs : a.token = v.tokens[i][1]}} IN x = (IF v.tokens[i][2] = 0 THEN {} ELSE {v.tokens[i][2]})
Step(s, e, par) ==
  IF e.k = "list" THEN When(e.e = "ok" /\ ListOk(s, e.v), {s})
  ELSE CASE e.a = "acc_create" -> AccCreate(s, e)
    [] e.a = "acc_update" -> LET F(x) == AccUpdate(s, e, x) IN On(s, e, Acc(s, e.id), F)
    [] e.a = "acc_delete" -> LET F(x) == When(Is(e, "ok") /\ AV(e.r.o) = x, {DropAcc(s, e.id)}) IN On(s, e, Acc(s, e.id), F)
    [] e.a = "acc_get" -> Get(s, e, Acc(s, e.id), AV)
    [] e.a = "acc_email" -> Get(s, e, {x \in s.accs : x.email = e.email}, AV)
    [] e.a = "org_create" -> OrgCreate(s, e)
    [] e.a = "org_update" -> LET F(x) == OrgUpdate(s, e, x) IN On(s, e, Org(s, e.id), F)
    [] e.a = "org_delete" -> LET F(x) == When(Is(e, "ok") /\ OV(e.r.o) = x, {DropOrg(s, e.id)}) IN On(s, e, Org(s, e.id), F)
    [] e.a = "org_get" -> Get(s, e, Org(s, e.id), OV)
    [] e.a = "add" -> AddMember(s, e)
    [] e.a = "remove" -> RemoveMember(s, e)
    [] e.a = "role" -> ChangeRole(s, e)
    [] e.a = "prj_create" -> PrjCreate(s, e)
    [] e.a = "prj_update" -> LET F(x) == PrjUpdate(s, e, x) IN On(s, e, Prj(s, e.id), F)
    [] e.a = "prj_delete" -> LET F(x) == When(Is(e, "ok") /\ e.r.o = x, {[s EXCEPT !.prjs = @ \ {x}]}) IN On(s, e, Prj(s, e.id), F)
    [] e.a = "prj_get" -> Get(s, e, Prj(s, e.id), Id)
    [] e.a = "prj_token" -> Get(s, e, {x \in s.prjs : x.token = e.token}, Id)
    [] e.a = "prj_count" -> LET F(x) == When(Is(e, "ok"), {[s EXCEPT !.prjs = (@ \ {x}) \cup {[x EXCEPT !.cnt = @ + 1]}]}) IN On(s, e, Prj(s, e.id), F)
    [] e.a = "team_create" -> TeamCreate(s, e)
    [] e.a = "team_update" -> LET F(x) == TeamUpdate(s, e, x) IN On(s, e, Team(s, e.org, e.id), F)
    [] e.a = "team_delete" -> LET F(x) == When(Is(e, "ok") /\ e.r.o = x, {[s EXCEPT !.teams = @ \ {x}]}) IN On(s, e, Team(s, e.org, e.id), F)
    [] e.a = "team_get" -> Get(s, e, Team(s, e.org, e.id), Id)
    [] OTHER -> {}
TSpec == SInit /\ [][SNext(Start, Step)]_<<l, S>>
Sound == \A s \in S : Agree(s) /\ Unique(s)
=============================================================================
