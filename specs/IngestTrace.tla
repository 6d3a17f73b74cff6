---------------------------- MODULE IngestTrace -----------------------------
(* Recorded requests to the ingestion endpoints, their answers and the rows they left. *)
EXTENDS StateTrace, Ingest
CONSTANTS CheckRows,                             \* what rows say (I01)
          CheckKeys                              \* whom they are about (I02)
Start(e) == IInit
Req(e) == [p |-> e.p, u |-> e.u, a |-> e.a, ev |-> e.ev, at |-> e.at, props |-> SetOf(e.props), sys |-> SetOf(e.sys), utm |-> SetOf(e.utm), hasg |-> e.hasg, groups |-> SetOf(e.groups)]
Project(s, e) ==
  [s EXCEPT !.props = @ \cup {<<e.p, x[1], x[2], x[3]>> : x \in SetOf(e.props)}, !.evs = @ \cup {<<e.p, x[1], SetOf(x[2])>> : x \in SetOf(e.events)},
            !.g.groups = @ \cup {[p |-> e.p, id |-> x[1], name |-> x[2]] : x \in SetOf(e.groups)}]
(* what a refused request may have registered all the same *)
Perhaps(s, e, w, evs, groups) ==
  [s EXCEPT !.may = [props |-> @.props \cup {<<e.p, w, x[1], x[2]>> : x \in SetOf(e.props)}, evs |-> @.evs \cup evs, groups |-> @.groups \cup {<<e.p, n>> : n \in groups}]]
Cat(s, e) ==
  LET ps == {<<e.p, x[1], x[2], x[3]>> : x \in SetOf(e.props)}  es == {<<e.p, x[1], SetOf(x[2])>> : x \in SetOf(e.events)}  gs == {[p |-> e.p, id |-> x[1], name |-> x[2]] : x \in SetOf(e.groups)}
      mine(X) == {x \in X : x[1] = e.p}  old == {x \in s.g.groups : x.p = e.p} IN
  IF /\ mine(s.props) \subseteq ps
     /\ \A x \in ps \ s.props : TypesOf(s, x[1], x[2], x[3]) = {} /\ \E y \in s.may.props : y[1] = x[1] /\ (y[2] = x[2] \/ y[2] = 99) /\ y[3] = x[3] /\ y[4] = x[4]
     /\ Cardinality({<<x[2], x[3]>> : x \in ps}) = Len(e.props)
     /\ Cardinality({x[2] : x \in es}) = Len(e.events)
     /\ \A x \in mine(s.evs) : \E y \in es : y[2] = x[2] /\ x[3] \subseteq y[3]
     /\ \A y \in es : LET sure == EventProps(s, e.p, y[2])  maybe == UNION {x[3] : x \in {x \in s.may.evs : x[1] = e.p /\ x[2] = y[2]}} IN
          /\ y[3] \subseteq sure \cup maybe
          /\ (\E x \in s.evs \cup s.may.evs : x[1] = e.p /\ x[2] = y[2])
     /\ old \subseteq gs /\ {x.name : x \in gs \ old} \subseteq {x[2] : x \in mine(s.may.groups)} /\ {x.id : x \in gs} = 0..(Cardinality(gs) - 1) /\ Cardinality(gs) = Len(e.groups)
  THEN {[s EXCEPT !.props = @ \cup ps, !.evs = {x \in @ : x[1] # e.p} \cup es, !.g.groups = @ \cup gs, !.may = [props |-> {x \in @.props : x[1] # e.p}, evs |-> {x \in @.evs : x[1] # e.p}, groups |-> {x \in @.groups : x[1] # e.p}]]}
  ELSE {}
Refused(s, e, w, evs, groups) ==
  IF e.st \in 400..599 /\ Len(e.rows) = 0 /\ e.gone = 0 /\ e.kept = s.n /\ e.cnt = Sent(s, e.p) THEN {Perhaps(s, e, w, evs, groups)} ELSE {}
(* the newest record of somebody stands for the earlier ones *)
Older(s, t, p, uid) == {x \in s.rows : x[1] = t /\ t >= 0 /\ x[2] = p /\ x[4] = uid}
Stored(s, e) == [s EXCEPT !.n = @ + Len(e.rows) - e.gone, !.rows = {x \in @ : \A r \in SetOf(e.rows) : x \notin Older(s, r.t, r.p, r.uid)} \cup {<<r.t, r.p, r.n, r.uid, SetOf(r.vals)>> : r \in SetOf(e.rows)}]
Added(s, e, n) == Len(e.rows) = n /\ LET gone == UNION {Older(s, r.t, r.p, r.uid) : r \in SetOf(e.rows)} IN e.gone = Cardinality(gone) /\ e.kept = s.n - e.gone
(* ---- an event *)
SaysEvent(s, q, r, begin) ==
  /\ r.t = -1 /\ r.p = q.p /\ r.rest = 0 /\ r.uid > 0
  /\ r.ev = (IF begin THEN Begin ELSE q.ev) /\ r.at = q.at
  /\ SetOf(r.vals) = (IF begin THEN First(q.utm, Stated(q)) ELSE Stated(q)) /\ Len(r.vals) = Cardinality(SetOf(r.vals))
  /\ SetOf(r.gvals) = OnRow(s, q) \/ (~q.hasg /\ r.gvals = <<>>)
  /\ {<<x[1], x[3]>> : x \in SetOf(r.gk)} = {<<GroupId(s, q.p, x[1]), x[2]>> : x \in q.groups}
  /\ r.ip \in {"", q.ip} /\ (begin => r.ip = q.ip)
Members(s, q, r) ==
  FoldLeft(LAMBDA acc, x : UNION {Member(t, q.p, x[1], x[3], x[2]) : t \in acc}, {s}, r.gk)
Track(s, e) ==
  LET q == Req(e) @@ [ip |-> e.ip]  names == {x[1] : x \in q.groups} IN
  IF q.p = 0 THEN (IF e.st = 404 \/ (e.bad /\ e.st = 400) THEN Refused(s, e, -1, {}, {}) ELSE {})
  ELSE IF e.bad \/ (q.u = "" /\ q.a = "") THEN (IF e.st = 400 THEN Refused(s, e, -1, {<<q.p, q.ev, {x[1] : x \in q.props}>>}, names) ELSE {})
  ELSE IF Clash(s, q.p, -1, q.props) \/ e.huge \/ TooManyGroups(s, q.p, names) THEN Refused(s, e, -1, {<<q.p, q.ev, {x[1] : x \in q.props}>>}, names)
  ELSE IF e.st # 201 \/ Len(e.rows) = 0 THEN {}
  ELSE LET uid == e.rows[1].uid  new == OpensSession(s, q.p, uid)  n == IF new THEN 2 ELSE 1  last == e.rows[n] IN
    IF ~Added(s, e, n) THEN {} ELSE
    LET A == Numbered(s, q.p, SetOf(e.gids), names)
        B == {t \in A : CheckRows => SaysEvent(t, q, last, FALSE) /\ (new => SaysEvent(t, q, e.rows[1], TRUE)) /\ (new => e.rows[1].n < last.n) /\ Later(t, q.p, -1, e.rows[1].n)}
        C == IF ~CheckKeys THEN B ELSE {t \in UNION {Members(x, q, last) : x \in UNION {Persons(b, q, uid) : b \in B}} :
               /\ \A r \in SetOf(e.rows) : r.uid = uid /\ r.text \in KnownAs(t, q.p, 0, uid) /\ r.gk = last.gk
               /\ {x[1] : x \in SetOf(last.gk)} = {GroupId(t, q.p, x) : x \in names} /\ \A x \in q.groups : \E y \in SetOf(last.gk) : y[1] = GroupId(t, q.p, x[1]) /\ y[3] = x[2]}
    IN IF CheckRows /\ e.cnt # Sent(s, q.p) + 1 THEN {} ELSE
       {Recorded([Stored(Attached(Declared(Counted(t, q.p), q.p, -1, q.props), q.p, q.ev, {x[1] : x \in q.props}), e) EXCEPT !.sess = @ \cup {<<q.p, uid>>}], q.p, -1, last.n) : t \in C}
(* ---- a record of a group *)
Record(s, e) ==
  LET ps == SetOf(e.props)  old == GroupIds(s, e.p, e.g)  w == IF old = {} THEN 99 ELSE GroupId(s, e.p, e.g) IN
  IF e.p = 0 THEN (IF e.st = 404 \/ (e.bad /\ e.st = 400) THEN Refused(s, e, w, {}, {}) ELSE {})
  ELSE IF e.bad THEN (IF e.st = 400 THEN Refused(s, e, w, {}, {e.g}) ELSE {})
  ELSE IF Clash(s, e.p, w, ps) \/ e.huge \/ TooManyGroups(s, e.p, {e.g}) THEN Refused(s, e, w, {}, {e.g})
  ELSE IF e.st # 204 \/ ~Added(s, e, 1) \/ (CheckRows /\ e.cnt # Sent(s, e.p)) THEN {}
  ELSE LET r == e.rows[1]
           A == Numbered(s, e.p, SetOf(e.gids), {e.g})
           B == UNION {LET g == GroupId(t, e.p, e.g) IN {Newer(x, e.p, g, e.u, ps) : x \in IF CheckKeys THEN {[t EXCEPT !.g = y] : y \in Arrive(t.g, <<e.p, g>>, e.u, {}, r.uid)} ELSE {t}} : t \in A}
           C == {t \in B : LET g == GroupId(t, e.p, e.g) IN
                  /\ r.t = g /\ r.p = e.p
                  /\ CheckKeys => /\ r.text \in KnownAs(t, e.p, g, r.uid) /\ r.at = e.at /\ r.rest = 0 /\ Later(t, e.p, g, r.n)
                                  /\ SetOf(r.vals) = ValuesOf(t, e.p, g, e.u) /\ Len(r.vals) = Cardinality(SetOf(r.vals))}
       IN {LET g == GroupId(t, e.p, e.g) IN Recorded(Stored(Declared(t, e.p, g, ps), e), e.p, g, r.n) : t \in C}
(* ---- in the end every row says what it said when it was stored, of the same person *)
All6(s, e) ==
  IF /\ Len(e.rows) = s.n
     /\ {<<r[1], r[2], r[3], r[4], SetOf(r[6])>> : r \in SetOf(e.rows)} = s.rows
     /\ CheckKeys => \A r \in SetOf(e.rows) : r[5] \in KnownAs(s, r[2], IF r[1] = -1 THEN 0 ELSE r[1], r[4])
  THEN {s} ELSE {}
Step(s, e, par) ==
  CASE e.k = "project" -> {Project(s, e)}
    [] e.k = "ended" -> {[s EXCEPT !.sess = @ \ {<<e.p, u>> : u \in SetOf(e.uids)}]}
    [] e.k = "cat" -> IF CheckRows THEN Cat(s, e) ELSE {[s EXCEPT !.props = {x \in @ : x[1] # e.p} \cup {<<e.p, x[1], x[2], x[3]>> : x \in SetOf(e.props)}, !.g.groups = {x \in @ : x.p # e.p} \cup {[p |-> e.p, id |-> x[1], name |-> x[2]] : x \in SetOf(e.groups)}]}
    [] e.k = "track" -> Track(s, e)
    [] e.k = "identify" -> Record(s, e)
    [] e.k = "all" -> All6(s, e)
    [] OTHER -> {}
TSpec == SInit /\ [][SNext(Start, Step)]_<<l, S>>
Sound == \A s \in S : OneIdentity(s.g)
=============================================================================
