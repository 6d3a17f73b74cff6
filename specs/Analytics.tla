----------------------------- MODULE Analytics ------------------------------
(* What a report over ingested events says: filters, breakdowns, measures, time buckets           *)
(* (properties Q01, Q03, Q04, Q06). A report is a function of the events alone: nothing here       *)
(* mentions how they are stored, in which part of the store, or how a query is planned.            *)
(*                                                                                                 *)
(* event  [p, u, g, e, t, v, b]: project, user, company (<<>> or <<name>>), name, instant, values  *)
(*        v[name] = <<>> or <<value>>; b[name] = the value as text, "~" when it has none           *)
(* filter [p, op, vals]: property, operation, values; texts are sequences of characters, and the   *)
(*        values of like/regex are patterns over characters, "ANY" and "STAR"                      *)
EXTENDS TimeQuery, FiniteSets
---------------------------------------------------------------------------
RECURSIVE Fits(_, _)
Fits(pat, txt) ==
  IF pat = <<>> THEN txt = <<>>
  ELSE IF Head(pat) = "STAR" THEN Fits(Tail(pat), txt) \/ (txt # <<>> /\ Fits(pat, Tail(txt)))
  ELSE txt # <<>> /\ (Head(pat) = "ANY" \/ Head(pat) = Head(txt)) /\ Fits(Tail(pat), Tail(txt))
Less(p, a, b) == IF p = "when" THEN Lt(a, b) ELSE a < b
(* a positive comparison holds when it holds for some of the values, a negative one when it holds   *)
(* for all of them; an event without a value passes no comparison, only "empty"                     *)
Passes(f, ev) ==
  LET o == ev.v[f.p]
      x == o[1]
      V == {f.vals[i] : i \in 1..Len(f.vals)}
  IN IF f.op = "empty" THEN o = <<>>
     ELSE IF o = <<>> THEN FALSE
     ELSE CASE f.op = "exists" -> TRUE
            [] f.op = "true" -> x = TRUE
            [] f.op = "false" -> x = FALSE
            [] f.op = "eq" -> x \in V
            [] f.op = "neq" -> x \notin V
            [] f.op = "gt" -> \E y \in V : Less(f.p, y, x)
            [] f.op = "gte" -> \E y \in V : Less(f.p, y, x) \/ x = y
            [] f.op = "lt" -> \E y \in V : Less(f.p, x, y)
            [] f.op = "lte" -> \E y \in V : Less(f.p, x, y) \/ x = y
            [] f.op \in {"like", "regex"} -> \E y \in V : Fits(y, x)
            [] f.op \in {"notLike", "notRegex"} -> \A y \in V : ~Fits(y, x)
PassesAll(fs, ev) == \A i \in 1..Len(fs) : Passes(fs[i], ev)
---------------------------------------------------------------------------
(* the window of a question: time.k is between (from .. cur), from (.. now = cur) or last           *)
Window(time) == IF time.k = "last" THEN WindowLast(time.cur, time.unit, time.n) ELSE [from |-> time.from, to |-> time.cur]
Within(t, w) == Le(w.from, t) /\ Le(t, w.to)
IsEvent(alts, ev) == \E i \in 1..Len(alts) : alts[i].e = ev.e /\ PassesAll(alts[i].f, ev)
(* the events an entry of a question is about *)
Matching(D, q, en) == LET w == Window(q.time) IN {i \in DOMAIN D : D[i].p = q.p /\ Within(D[i].t, w) /\ IsEvent(en.alts, D[i]) /\ PassesAll(en.f, D[i]) /\ PassesAll(q.glob, D[i])}
(* whom an event counts for: group 0 is users, group 1 companies *)
Who(ev, grp) == IF grp = 0 THEN <<ev.u>> ELSE ev.g
---------------------------------------------------------------------------
(* Values are fractions num / den of hundredths; <<>> is no value.                                  *)
RECURSIVE SumOf(_, _)
SumOf(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOf(f, S \ {x})
(* aggregate of whole numbers f over S *)
Agg(fn, f, S) ==
  IF S = {} THEN <<>>
  ELSE CASE fn = "count" -> <<100 * Cardinality(S), 1>>
         [] fn = "sum" -> <<SumOf(f, S), 1>>
         [] fn = "min" -> <<f[CHOOSE x \in S : \A y \in S : f[x] <= f[y]], 1>>
         [] fn = "max" -> <<f[CHOOSE x \in S : \A y \in S : f[x] >= f[y]], 1>>
         [] OTHER -> <<SumOf(f, S), Cardinality(S)>>
(* aggregate of fractions: brought to the product of the distinct denominators first *)
RECURSIVE Common(_)
Gcd(a, b) == LET RECURSIVE G(_, _) G(x, y) == IF y = 0 THEN x ELSE G(y, x % y) IN G(a, b)
Common(S) == IF S = {} THEN 1 ELSE LET x == CHOOSE y \in S : TRUE
                                       c == Common(S \ {x})
                                   IN (c * x) \div Gcd(c, x)
AggQ(fn, f, S) ==
  IF S = {} THEN <<>>
  ELSE LET c == Common({f[x][2] : x \in S})
           h == [x \in S |-> f[x][1] * (c \div f[x][2])]
           r == Agg(fn, h, S)
       IN IF fn = "count" THEN r ELSE <<r[1], r[2] * c>>
(* one measure m over the events S of one bucket *)
Measure(D, m, grp, S) ==
  LET priced == {i \in S : D[i].v["price"] # <<>>}
      price == [i \in priced |-> D[i].v["price"][1]]
      owners(T) == {Who(D[i], grp) : i \in T} \ {<<>>}
      of(T, w) == {i \in T : Who(D[i], grp) = w}
  IN CASE m.k = "countEvents" -> IF S = {} THEN <<>> ELSE <<100 * Cardinality(S), 1>>
       [] m.k \in {"countUniqueGroups", "dailyActiveGroups"} -> IF owners(S) = {} THEN <<>> ELSE <<100 * Cardinality(owners(S)), 1>>
       [] m.k = "countPerGroup" -> LET O == owners(S) IN Agg(m.out, [w \in O |-> 100 * Cardinality(of(S, w))], O)
       [] m.k = "aggregateProperty" -> Agg(m.out, price, priced)
       [] OTHER -> LET O == owners(priced) IN AggQ(m.out, [w \in O |-> Agg(m.in, price, of(priced, w))], O)
AGG(fn) == CASE fn = "count" -> "COUNT" [] fn = "sum" -> "SUM" [] fn = "min" -> "MIN" [] fn = "max" -> "MAX" [] OTHER -> "AVG"
Agg1(fn) == CASE fn = "count" -> "Count" [] fn = "sum" -> "Sum" [] fn = "min" -> "Min" [] fn = "max" -> "Max" [] OTHER -> "Avg"
Label(m) == CASE m.k = "countEvents" -> "Count" [] m.k = "countUniqueGroups" -> "Count unique" [] m.k = "dailyActiveGroups" -> "Daily active"
              [] m.k = "countPerGroup" -> Agg1(m.out) [] m.k = "aggregateProperty" -> AGG(m.out) \o "(price)"
              [] OTHER -> AGG(m.out) \o "(" \o AGG(m.in) \o "(price))"
---------------------------------------------------------------------------
(* The rows of a report: one for each entry, measure and combination of breakdown values seen; a    *)
(* cell for each bucket of the window, <<>> where there is nothing to measure.                      *)
Names(q, en) == {q.brk[i] : i \in 1..Len(q.brk)} \cup {en.brk[i] : i \in 1..Len(en.brk)}
KeyOf(D, i, q, en) == [n \in {q.names[k] : k \in 1..Len(q.names)} \cup {"_"} |-> IF n = "_" THEN "" ELSE IF n \in Names(q, en) THEN D[i].b[n] ELSE "~"]
BucketsOf(q) == LET w == Window(q.time) IN Buckets(w.from, w.to, q.unit)
RowsOf(D, q, en) ==
  LET M == Matching(D, q, en)
      B == BucketsOf(q)
      key == [i \in M |-> KeyOf(D, i, q, en)]
      at == [i \in M |-> Trunc(D[i].t, q.unit)]
      keys == {key[i] : i \in M}
  IN {[ev |-> en.name, fml |-> Label(en.qs[j]), brk |-> k,
       cells |-> [b \in 1..Len(B) |-> Measure(D, en.qs[j], q.grp, {i \in M : key[i] = k /\ at[i] = B[b]})]] : j \in 1..Len(en.qs), k \in keys}
Report(D, q) == UNION {RowsOf(D, q, q.evs[n]) : n \in 1..Len(q.evs)}
Header(q) == LET w == Window(q.time) IN Columns(w.from, w.to, q.unit)
---------------------------------------------------------------------------
(* An answer shows values rounded to three digits after the point (times ten thousand here): no     *)
(* value is shown as nought.                                                                        *)
Abs(x) == IF x < 0 THEN -x ELSE x
Shows(x, c) == IF c = <<>> THEN x = 0 ELSE Abs((x * c[2]) - (c[1] * 100)) <= 6 * c[2]
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
Blank(r) == \A b \in 1..Len(r.cells) : r.cells[b] = <<>>
RowShows(o, r) == /\ o.ev = r.ev /\ o.fml = r.fml /\ o.brk = r.brk
                  /\ Len(o.cells) = Len(r.cells) /\ \A b \in 1..Len(r.cells) : Shows(o.cells[b], r.cells[b])
                  /\ Abs((o.avg * Len(o.cells)) - SumSeq(o.cells)) <= 12 * Len(o.cells)
(* the answer (cols, rows) is the report: every row is in it, once, but for rows with nothing to    *)
(* measure, which may be left out                                                                   *)
Rows(D, q, rows) ==
  LET R == Report(D, q)
      hit == [i \in 1..Len(rows) |-> {r \in R : RowShows(rows[i], r)}]
  IN /\ \A i \in 1..Len(rows) : hit[i] # {}
     /\ \A r \in R : LET n == Cardinality({i \in 1..Len(rows) : rows[i].ev = r.ev /\ rows[i].fml = r.fml /\ rows[i].brk = r.brk}) IN n = 1 \/ (n = 0 /\ Blank(r))
(* rows of one event come with the largest averages first *)
Ordered(q, rows) ==
  \A n \in 1..Len(q.evs) : (\A m \in 1..Len(q.evs) : q.evs[m].name = q.evs[n].name => m = n) =>
    \A i, j \in 1..Len(rows) : (i < j /\ rows[i].ev = q.evs[n].name /\ rows[j].ev = q.evs[n].name) => rows[i].avg >= rows[j].avg
Answers(D, q, cols, rows) == Rows(D, q, rows) /\ Ordered(q, rows) /\ (rows # <<>> => cols = Header(q))
=============================================================================
