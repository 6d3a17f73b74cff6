------------------------------ MODULE MC_Tokens ------------------------------
(* Two people, an administrator, one organization, signing keys that may be replaced and come back, *)
(* tokens that age, and an adversary who presents whatever was ever given out, and forgeries.       *)
EXTENDS Tokens, TLC
CONSTANT MaxSteps
VARIABLES s, out, used, n, last
vars == <<s, out, used, n, last>>
Emails == {"a", "b"}
Pws == {"p", "q"}
Keys == {"k1", "k2"}
Tok(kind, acc, org, key, life, intact) == [kind |-> kind, acc |-> acc, org |-> org, key |-> key, life |-> life, intact |-> intact]
None == Tok("missing", 0, 0, "", 0, TRUE)
Init ==
  /\ s = [accs |-> {[id |-> 1, email |-> "r", pw |-> "p", fp |-> FALSE, fe |-> FALSE, admin |-> TRUE]},
          orgs |-> {[id |-> 1, members |-> {<<1, "owner">>}]}, ak |-> "k1", rk |-> "k1"]
  /\ out = {} /\ used = 1 /\ n = 0 /\ last = [op |-> "none", ok |-> FALSE, a |-> None, b |-> None, acc |-> 0, pw |-> ""]
Given(t, r) == UNION {{Tok("access", g.acc, g.org, t.ak, 1, TRUE), Tok("refresh", g.acc, g.org, t.rk, 1, TRUE)} : g \in {r.toks[i] : i \in 1..Len(r.toks)}}
Do(o, op, a, b, acc, pw) ==
  /\ s' = o.s /\ out' = out \cup Given(s, o.r) /\ n' = n + 1
  /\ last' = [op |-> op, ok |-> o.r.st < 300, a |-> a, b |-> b, acc |-> acc, pw |-> pw]
(* whatever an adversary can present: what was given out, and copies that were altered *)
Present == out \cup {[t EXCEPT !.intact = FALSE] : t \in out} \cup {None}
Outside ==
  \/ \E m \in Emails, p \in Pws : used < 3 /\ used' = used + 1 /\ Do(SignUp(s, used + 1, m, TRUE, p, FALSE), "signup", None, None, used + 1, p)
  \/ \E m \in Emails, p \in Pws, o \in {-1, 0, 1} : used' = used /\ Do(LogIn(s, m, TRUE, p, o), "login", None, None, LET A == ByEmail(s, m) IN IF A = {} THEN 0 ELSE The(A).id, p)
  \/ \E b \in Present : \E a \in {t \in Present : Caller(s, t) # {}} : used' = used /\ Do(Refresh(s, a, None, b), "refresh", a, b, b.acc, "")
Inside ==
  \E t \in Present : \E a \in Caller(s, t) : used' = used /\
    \/ \E c, w \in Pws : Do(ChangePassword(s, a, t, c, w, FALSE), "chpw", t, None, a.id, c)
    \/ \E w \in Pws : Do(SetPassword(s, a, t, w, FALSE), "setpw", t, None, a.id, w)
    \/ \E i \in 1..used, w \in Pws, f \in BOOLEAN : i # a.id /\ Do(SetAccount(s, a, i, w, f), "setacc", t, None, a.id, w)
    \/ \E i \in 2..used : Do(DelAccount(s, a, i), "delacc", t, None, a.id, "")
    \/ \E k, r \in Keys : Do(SetKeys(s, a, k, r), "keys", t, None, a.id, "")
    \/ Do(Switch(s, a, 1), "switch", t, None, a.id, "")
Root == \* the administrator logs in
  used' = used /\ Do(LogIn(s, "r", TRUE, "p", 1), "login", None, None, 1, "p")
Age == \E t \in out : t.life > 0 /\ out' = (out \ {t}) \cup {[t EXCEPT !.life = 0]} /\ n' = n + 1 /\ UNCHANGED <<s, used>> /\ last' = [last EXCEPT !.op = "age", !.ok = FALSE]
Join == ById(s, 2) # {} /\ s' = [s EXCEPT !.orgs = {[o EXCEPT !.members = @ \cup {<<2, "member">>}] : o \in @}] /\ n' = n + 1 /\ UNCHANGED <<out, used>> /\ last' = [last EXCEPT !.op = "join", !.ok = FALSE]
Next == n < MaxSteps /\ (Outside \/ Inside \/ Root \/ Age \/ Join)
Spec == Init /\ [][Next]_vars
(* only tokens given out, unaltered, in force and signed with the keys of the day are of any use *)
OnlyGenuine == [][last'.ok /\ last'.a.kind # "missing" => last'.a \in out /\ last'.a.life > 0 /\ last'.a.key = s.ak /\ last'.a.kind = "access"]_vars
OnlyRefresh == [][last'.ok /\ last'.op = "refresh" => last'.b \in out /\ last'.b.life > 0 /\ last'.b.key = s.rk /\ last'.b.kind = "refresh"]_vars
(* a new key ends every token of the old one *)
Rotated == [][s'.ak # s.ak => \A t \in out : AccessOk(s, t) => ~AccessOk(s', t)]_vars
RotatedRefresh == [][s'.rk # s.rk => \A t \in out : RefreshOk(s, t) => ~RefreshOk(s', t)]_vars
(* tokens come from the current password, or from a token *)
KnowsPassword == [][last'.op = "login" /\ last'.ok => \E a \in s.accs : a.id = last'.acc /\ a.pw = last'.pw]_vars
(* a password changes by its owner knowing it, by an owner asked for a new one, or by an administrator *)
PasswordMoves ==
  [][\A a \in s.accs, b \in s'.accs : a.id = b.id /\ a.pw # b.pw =>
       \/ last'.op = "chpw" /\ last'.acc = a.id /\ last'.pw = a.pw
       \/ last'.op = "setpw" /\ last'.acc = a.id /\ a.fp
       \/ last'.op = "setacc" /\ \E x \in s.accs : x.id = last'.acc /\ x.admin]_vars
KeysMove == [][<<s'.ak, s'.rk>> # <<s.ak, s.rk>> => \E x \in s.accs : x.id = last'.acc /\ x.admin]_vars
(* nobody gets a token of an organization without being in it, but by refreshing into what they have *)
Unique == \A a, b \in s.accs : a.email = b.email \/ a.id = b.id => a = b
NoGhosts == \A o \in s.orgs : \A m \in o.members : \E a \in s.accs : a.id = m[1]
=============================================================================
