----------------------------- MODULE Trace_M07 ------------------------------
EXTENDS StateTrace, Columns
Start(e) == [props |-> {}, given |-> {}, tried |-> {}]
View(x) == [id |-> x.id, name |-> x.name, col |-> x.col, dt |-> x.dt, sdt |-> x.sdt, dict |-> x.dict, sys |-> x.sys, nul |-> x.nul]
Of(s, g, p) == {x \in s.props : x.g = g /\ x.p = p}
(* creation, or retrieval by name *)
Make(s, e) ==
  LET q == e.q  old == {x \in Of(s, e.g, e.p) : x.name = q.name} IN
  IF old # {} THEN (IF e.goc THEN (IF e.r.e = "ok" /\ \A x \in old : e.r.o = View(x) THEN {s} ELSE {}) ELSE IF e.r.e = "exists" THEN {s} ELSE {})
  ELSE IF e.r.e # "ok" THEN {}
  ELSE LET o == e.r.o  n == [g |-> e.g, p |-> e.p, id |-> o.id, name |-> q.name, col |-> o.col, dt |-> q.dt, sdt |-> Storage(q.dt, q.dict), dict |-> q.dict, sys |-> q.sys, nul |-> q.nul] IN
       IF o = View(n) /\ (\A x \in Of(s, e.g, e.p) : x.id # o.id) /\ Free({c \in s.given : c.p = e.p}, q.sys, q.name, o.col)
       THEN {[s EXCEPT !.props = @ \cup {n}, !.given = @ \cup {n}]} ELSE {}
Call(e, i) == [k |-> "make", g |-> e.g, p |-> e.p, goc |-> e.goc, fail |-> e.fail, q |-> e.reqs[i], r |-> e.reqs[i].r]
(* a failed creation may leave its column behind *)
Tried(s, e) == [s EXCEPT !.tried = @ \cup {[g |-> e.g, sdt |-> Storage(e.q.dt, e.q.dict), nul |-> e.q.nul]}]
Found(r, want) == IF want = {} THEN r.e = "notfound" ELSE r.e = "ok" /\ \E x \in want : r.o = View(x)
List(s, e) ==
  LET live == Of(s, e.g, e.p)
      ok == /\ e.e = "ok" /\ SetOf(e.list) = {View(x) : x \in live} /\ Len(e.list) = Cardinality(live)
            /\ \A i \in 1..Len(e.look) : LET k == e.look[i]  mine == {x \in Of(s, k.g, k.p) : x.id = k.id} IN
                 /\ Found(k.byid, mine)
                 /\ mine # {} => Found(k.byname, mine) /\ Found(k.bycol, mine)
  IN IF ok THEN {s} ELSE {}
(* every property's column is in its tables, with its type *)
InTable(s, x, row, t) ==
  \/ row[2] = x.sdt /\ row[3] = x.nul
  \/ /\ \/ \E y \in s.given : y.col = x.col /\ y.p # x.p /\ y.sdt = row[2] /\ y.nul = row[3]
        \/ \E y \in s.tried : y.sdt = row[2] /\ y.nul = row[3]
     /\ Known("shared-column-type", l)
ColsIn(s, e) ==
  LET T(t) == LET i == CHOOSE i \in 1..Len(e.tables) : e.tables[i][1] = t IN e.tables[i][2]
      ok == \A x \in s.props, t \in {9, 0, 1, 4} : t \in Tables(x) => \E i \in 1..Len(T(t)) : T(t)[i][1] = x.col /\ InTable(s, x, T(t)[i], t)
      once == \A t \in {9, 0, 1, 4} : \A i, j \in 1..Len(T(t)) : T(t)[i][1] = T(t)[j][1] => i = j
  IN IF ok /\ once THEN {s} ELSE {}
Step(s, e, par) ==
  CASE e.k = "make" -> Make(s, e)
    [] e.k = "create" -> LET c == Call(e, 1) IN Make(s, c) \cup (IF c.r.e = "store" /\ e.fail THEN {Tried(s, c)} ELSE {})
    [] e.k = "update" -> LET mine == {x \in Of(s, e.g, e.p) : x.id = e.id} IN IF mine = {} THEN (IF e.r.e = "notfound" THEN {s} ELSE {}) ELSE IF e.r.e = "exists" \/ Found(e.r, mine) THEN {s} ELSE {}
    [] e.k = "delete" -> LET mine == {x \in Of(s, e.g, e.p) : x.id = e.id} IN IF Found(e.r, mine) THEN {[s EXCEPT !.props = @ \ mine]} ELSE {}
    [] e.k = "list" -> List(s, e)
    [] e.k = "cols" -> ColsIn(s, e)
    [] OTHER -> {}
(* concurrent creations of one line *)
PStep(s, e, par) == IF e.k = "make" /\ e.r.e = "store" THEN {Tried(s, e)} ELSE Step(s, e, par)
TNext == IF l <= Len(Trace) /\ Trace[l].k = "par"
         THEN LET e == Trace[l]  T == Par(PStep, S, [i \in 1..Len(e.reqs) |-> Call(e, i)]) IN
              IF T # {} THEN S' = T /\ l' = l + 1 ELSE Bad(l, e.k) /\ S' = {} /\ l' = Resume(l)
         ELSE SNext(Start, Step)
TSpec == SInit /\ [][TNext]_<<l, S>>
Sound == \A s \in S : OwnColumn(s.props)
=============================================================================
