------------------------------ MODULE Trace_P02 -----------------------------
EXTENDS StateTrace, Tokens
Start(e) == [accs |-> {e.root}, orgs |-> {}, ak |-> e.ak, rk |-> e.rk]
(* the tokens given out are for who the answer says, signed with today's keys, and live as long as configured *)
Same(s, r, want) ==
  /\ r.st = want.st /\ Len(r.toks) = Len(want.toks)
  /\ \A i \in 1..Len(r.toks) :
       LET t == r.toks[i] w == want.toks[i] IN
       /\ t.a.kind = "access" /\ t.a.acc = w.acc /\ t.a.org = w.org /\ t.a.key = s.ak /\ t.a.life \in AccessLife - 20..AccessLife
       /\ t.r.kind = "refresh" /\ t.r.acc = w.acc /\ t.r.key = s.rk /\ t.r.life \in RefreshLife - 20..RefreshLife
       /\ t.cookie \in {"same", "none"}
Answer(s, e, out) == IF Same(s, e.ans, out.r) THEN {out.s} ELSE {}
(* calls that need an access token *)
As(s, e, out(_)) ==
  LET C == Caller(s, e.a) IN
  IF C = {} THEN (IF e.ans.st \in (IF AccessOk(s, e.a) THEN {401, 404} ELSE {401}) /\ e.ans.toks = <<>> THEN {s} ELSE {})
  ELSE Answer(s, e, out(The(C)))
Step(s, e, par) ==
  CASE e.k = "signup" -> IF e.ans.st = 201 /\ ById(s, e.id) # {} THEN {} ELSE Answer(s, e, SignUp(s, e.id, e.email, e.good, e.pw, e.weak))
    [] e.k = "login" -> Answer(s, e, LogIn(s, e.email, e.good, e.pw, e.org))
    [] e.k = "refresh" -> As(s, e, LAMBDA a : Refresh(s, e.a, e.c, e.b))
    [] e.k = "switch" -> As(s, e, LAMBDA a : Switch(s, a, e.org))
    [] e.k = "chpw" -> As(s, e, LAMBDA a : ChangePassword(s, a, e.a, e.cur, e.new, e.weak))
    [] e.k = "chem" -> As(s, e, LAMBDA a : ChangeEmail(s, a, e.a, e.cur, e.email, e.good))
    [] e.k = "setpw" -> As(s, e, LAMBDA a : SetPassword(s, a, e.a, e.new, e.weak))
    [] e.k = "setem" -> As(s, e, LAMBDA a : SetEmail(s, a, e.a, e.email, e.good))
    [] e.k = "keys" -> As(s, e, LAMBDA a : SetKeys(s, a, e.ak, e.rk))
    [] e.k = "newacc" -> As(s, e, LAMBDA a : NewAccount(s, a, e.id, e.email, e.pw, e.fp, e.fe))
    [] e.k = "setacc" -> As(s, e, LAMBDA a : SetAccount(s, a, e.id, e.pw, e.fp))
    [] e.k = "delacc" -> As(s, e, LAMBDA a : DelAccount(s, a, e.id))
    [] e.k = "profile" -> As(s, e, LAMBDA a : Out(s, No(IF e.ans.st = 200 /\ e.o = [email |-> a.email, fp |-> a.fp, fe |-> a.fe] THEN 200 ELSE 0)))
    [] e.k = "org" -> {[s EXCEPT !.orgs = @ \cup {[id |-> e.id, members |-> {<<e.by, "owner">>}]}]}
    [] e.k = "noorg" -> {[s EXCEPT !.orgs = {o \in @ : o.id # e.id}]}
    [] e.k = "join" -> {[s EXCEPT !.orgs = {IF o.id = e.id THEN [o EXCEPT !.members = {m \in @ : m[1] # e.acc} \cup {<<e.acc, e.role>>}] ELSE o : o \in @}]}
    [] e.k = "leave" -> {[s EXCEPT !.orgs = {IF o.id = e.id THEN [o EXCEPT !.members = {m \in @ : m[1] # e.acc}] ELSE o : o \in @}]}
    [] OTHER -> {}
TSpec == SInit /\ [][SNext(Start, Step)]_<<l, S>>
=============================================================================
