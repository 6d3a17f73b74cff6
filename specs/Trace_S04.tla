----------------------------- MODULE Trace_S04 -----------------------------
(* One table, its parts looked at after every flush, round of compaction, garbage collection and   *)
(* reopening. mem: rows not flushed yet; lay: the parts last seen; pend: what was done since.       *)
EXTENDS StateTrace, Levels
When(c, T) == IF c THEN T ELSE {}
Nothing == [t |-> NewTable(1, FALSE), all |-> NoRows, mem |-> NoRows, lay |-> <<>>, o |-> 0, pend |-> "none", rows |-> NoRows, cols |-> <<>>]
Start(e) == Nothing
Widen(L, from, to) == [k \in 1..Len(L) |-> [i \in 1..Len(L[k]) |-> [L[k][i] EXCEPT !.rows = [j \in 1..Len(@) |-> <<@[j][1], [c \in 1..Len(to) |-> IF c <= Len(from) THEN @[j][2][c] ELSE "null"]>>]]]]
Add(b, c) == [x \in DOMAIN b \cup DOMAIN c |-> (IF x \in DOMAIN b THEN b[x] ELSE 0) + (IF x \in DOMAIN c THEN c[x] ELSE 0)]
LayoutOf(s, e) ==
  LET L == e.o  old == Widen(s.lay, s.cols, e.cols) IN
  When(/\ Len(L) = s.o.levels /\ \A k \in 1..Len(L) : \A p \in Elems(L[k]) : PartOk(p)
       /\ UniqueIds(L) /\ AllApart(s.t, L) /\ Holds(s.t, e.cols, L)
       /\ CASE s.pend = "flush" -> FlushOk(old, L, s.rows)
            [] s.pend = "step" -> RoundOk(s.o, s.t.rep, old, L)
            [] OTHER -> L = old,
       {[s EXCEPT !.lay = L, !.pend = "none", !.cols = e.cols]})
Step(s, e, par) ==
  IF e.a = "field" /\ e.f \in s.t.cols THEN When(e.r.e = "exists", {s})
  ELSE IF e.r.e # "ok" THEN {}
  ELSE CASE e.a = "create" -> {[s EXCEPT !.t = NewTable(e.idx, e.rep), !.o = [levels |-> e.levels, l0 |-> e.l0, l1 |-> e.l1, lmul |-> e.lmul], !.lay = [k \in 1..e.levels |-> <<>>]]}
    [] e.a = "field" -> {[s EXCEPT !.t.cols = @ \cup {e.f}]}
    [] e.a = "ins" -> {[s EXCEPT !.mem = Plus(@, Row(e.key, e.v))]}
    [] e.a = "flush" -> {[s EXCEPT !.t.rows = Add(@, s.mem), !.rows = s.mem, !.mem = NoRows, !.pend = "flush"]}
    [] e.a = "step" -> {[s EXCEPT !.pend = IF e.i = 0 THEN "step" ELSE "other"]}
    [] e.a = "reopen" -> {[s EXCEPT !.pend = "other"]}
    [] e.a = "scan" -> When(ScanOk([s.t EXCEPT !.rows = Add(@, s.mem)], e.cols, e.r.o), {s})
    [] e.a = "layout" -> LayoutOf(s, e)
    [] OTHER -> {}
TSpec == SInit /\ [][SNext(Start, Step)]_<<l, S>>
Sound == \A s \in S : \A r \in DOMAIN s.t.rows : Len(r.k) = s.t.idx
=============================================================================
