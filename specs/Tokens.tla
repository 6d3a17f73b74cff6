------------------------------- MODULE Tokens -------------------------------
(* Accounts, their passwords, the two signing keys, and the tokens the platform gives out.          *)
(* s.accs    accounts: id, email, pw, fp / fe (a new password / email is demanded), admin           *)
(* s.orgs    organizations: id, members (account, role)                                             *)
(* s.ak, s.rk  the current access and refresh keys                                                  *)
(* A presented token is described by what is in it: kind, acc, org, key, life (seconds left), and   *)
(* whether it is intact (not altered, signed by the agreed algorithm).                               *)
EXTENDS Integers, Sequences, FiniteSets, Access
AccessLife == 172800
RefreshLife == 777600
AccessOk(s, t) == t.kind = "access" /\ t.intact /\ t.key = s.ak /\ t.life > 0
RefreshOk(s, t) == t.kind = "refresh" /\ t.intact /\ t.key = s.rk /\ t.life > 0
ById(s, i) == {a \in s.accs : a.id = i}
ByEmail(s, m) == {a \in s.accs : a.email = m}
The(S) == CHOOSE x \in S : TRUE
OrgById(s, i) == {o \in s.orgs : o.id = i}
IsMember(o, a) == \E m \in o.members : m[1] = a
RoleIn(s, a, org) == LET R == {m \in UNION {o.members : o \in OrgById(s, org)} : m[1] = a} IN IF R = {} THEN "none" ELSE The(R)[2]
Put(s, a) == [s EXCEPT !.accs = {b \in @ : b.id # a.id} \cup {a}]
Drop(s, i) == [s EXCEPT !.accs = {b \in @ : b.id # i}]
(* Who a call with access token t comes from: an account, or nobody. *)
Caller(s, t) == IF AccessOk(s, t) THEN ById(s, t.acc) ELSE {}
(* The answer to a call: a status and, if tokens are given out, for which account and organization. *)
No(st) == [st |-> st, toks |-> <<>>]
Give(st, acc, org) == [st |-> st, toks |-> <<[acc |-> acc, org |-> org]>>]
Out(s, r) == [s |-> s, r |-> r]
SignUp(s, id, email, good, pw, weak) ==
  IF ~good \/ weak THEN Out(s, No(400)) ELSE IF ByEmail(s, email) # {} THEN Out(s, No(409))
  ELSE Out(Put(s, [id |-> id, email |-> email, pw |-> pw, fp |-> FALSE, fe |-> FALSE, admin |-> FALSE]), Give(201, id, 0))
(* org: the organization the client remembers, -1 if none *)
LogIn(s, email, good, pw, org) ==
  IF ~good THEN Out(s, No(400))
  ELSE LET A == {a \in ByEmail(s, email) : a.pw = pw} IN
       IF A = {} THEN Out(s, No(401))
       ELSE LET a == The(A) mine == {o.id : o \in {x \in s.orgs : IsMember(x, a.id)}} IN
            IF org >= 0 THEN (IF OrgById(s, org) = {} THEN Out(s, No(404)) ELSE Out(s, Give(200, a.id, IF org \in mine THEN org ELSE 0)))
            ELSE Out(s, Give(200, a.id, IF mine = {} THEN 0 ELSE CHOOSE x \in mine : \A y \in mine : x <= y))
(* c: the token in the cookie, b: the one in the body; kind "missing" if not there *)
Refresh(s, t, c, b) ==
  IF c.kind = "missing" /\ b.kind = "missing" THEN Out(s, No(400))
  ELSE LET r == IF c.kind # "missing" THEN c ELSE b IN
       IF RefreshOk(s, r) THEN Out(s, Give(200, r.acc, t.org)) ELSE Out(s, No(401))
Switch(s, a, org) ==
  IF ~OnOrg(a.admin, RoleIn(s, a.id, org), "ViewOrganization") THEN Out(s, No(403))
  ELSE IF OrgById(s, org) = {} THEN Out(s, No(404)) ELSE Out(s, Give(200, a.id, org))
ChangePassword(s, a, t, cur, new, weak) ==
  IF cur # a.pw \/ weak THEN Out(s, No(400)) ELSE Out(Put(s, [a EXCEPT !.pw = new]), Give(200, a.id, t.org))
ChangeEmail(s, a, t, cur, email, good) ==
  IF ~good \/ cur # a.pw \/ ByEmail(s, email) \ {a} # {} THEN Out(s, No(400)) ELSE Out(Put(s, [a EXCEPT !.email = email]), Give(200, a.id, t.org))
SetPassword(s, a, t, new, weak) ==
  IF ~a.fp THEN Out(s, No(403)) ELSE IF weak THEN Out(s, No(400)) ELSE Out(Put(s, [a EXCEPT !.pw = new, !.fp = FALSE]), Give(200, a.id, t.org))
SetEmail(s, a, t, email, good) ==
  IF ~a.fe THEN Out(s, No(403)) ELSE IF ~good THEN Out(s, No(400)) ELSE IF ByEmail(s, email) \ {a} # {} THEN Out(s, No(409))
  ELSE Out(Put(s, [a EXCEPT !.email = email, !.fe = FALSE]), Give(200, a.id, t.org))
SetKeys(s, a, ak, rk) == IF ~OnServer(a.admin, "ManageServer") THEN Out(s, No(403)) ELSE Out([s EXCEPT !.ak = ak, !.rk = rk], No(200))
NewAccount(s, a, id, email, pw, fp, fe) ==
  IF ~OnServer(a.admin, "ManageAccounts") THEN Out(s, No(403)) ELSE IF ByEmail(s, email) # {} THEN Out(s, No(409))
  ELSE Out(Put(s, [id |-> id, email |-> email, pw |-> pw, fp |-> fp, fe |-> fe, admin |-> FALSE]), No(201))
(* an administrator sets another password, and may demand a new one *)
SetAccount(s, a, id, pw, fp) ==
  IF ~OnServer(a.admin, "ManageAccounts") THEN Out(s, No(403)) ELSE IF ById(s, id) = {} THEN Out(s, No(404))
  ELSE Out(Put(s, [The(ById(s, id)) EXCEPT !.pw = pw, !.fp = fp]), No(200))
DelAccount(s, a, id) ==
  IF ~OnServer(a.admin, "ManageAccounts") THEN Out(s, No(403)) ELSE IF ById(s, id) = {} THEN Out(s, No(404))
  ELSE Out([Drop(s, id) EXCEPT !.orgs = {[o EXCEPT !.members = {m \in @ : m[1] # id}] : o \in @}], No(200))
=============================================================================
