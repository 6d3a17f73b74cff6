---------------------------- MODULE MC_Analytics ---------------------------
EXTENDS Analytics
(* Design check: events come one at a time, in any order; the laws of reports hold in every state. *)
CONSTANTS N, Prices, Moments
VARIABLE D
vars == <<D>>
At(d, s) == [d |-> d, s |-> s, n |-> 0]
Colors == {<<>>, <<<<"r">>>>}
Shown(c) == IF c = <<>> THEN "~" ELSE "r"
Made == {[p |-> p, u |-> u, g |-> g, e |-> e, t |-> At(m, 0), v |-> [color |-> c, price |-> x, when |-> <<>>], b |-> [color |-> Shown(c)]] :
           p \in {0}, u \in {"a", "b"}, g \in {<<>>, <<"k">>}, e \in {"Buy", "Look"}, m \in Moments, c \in Colors, x \in {<<>>} \cup {<<y>> : y \in Prices}}
Alien == [p |-> 1, u |-> "a", g |-> <<>>, e |-> "Buy", t |-> At(CHOOSE m \in Moments : TRUE, 0), v |-> [color |-> <<>>, price |-> <<700>>, when |-> <<>>], b |-> [color |-> "~"]]
Init == D = <<>>
Next == /\ Len(D) < N
        /\ \E ev \in Made : D' = Append(D, ev)
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
Q(fs, brk, ms, alts, grp) == [p |-> 0, grp |-> grp, unit |-> "month", time |-> [k |-> "between", from |-> At(18000, 0), cur |-> At(18060, 0), n |-> 0, unit |-> ""],
  glob |-> <<>>, brk |-> brk, names |-> brk, evs |-> <<[name |-> "X", alts |-> alts, f |-> fs, brk |-> <<>>, qs |-> ms]>>]
Buy == <<[e |-> "Buy", f |-> <<>>]>>
Look == <<[e |-> "Look", f |-> <<>>]>>
M(k, o, i) == [k |-> k, out |-> o, in |-> i]
Count == M("countEvents", "count", "count")
Fns == {"count", "sum", "min", "max", "avg"}
Measures == {Count, M("countUniqueGroups", "count", "count")} \cup {M("countPerGroup", f, "count") : f \in Fns} \cup {M("aggregateProperty", f, "count") : f \in Fns}
            \cup {M("aggregatePropertyPerGroup", f, g) : f \in Fns, g \in Fns}
Filt(p, op, vals) == [p |-> p, op |-> op, vals |-> vals]
Same(a, b) == a = b \/ (a # <<>> /\ b # <<>> /\ a[1] * b[2] = b[1] * a[2])
Of(D0, q, m, S) == Measure(D0, m, q.grp, S)
Val(c) == IF c = <<>> THEN 0 ELSE c[1]
Sel(q) == Matching(D, q, q.evs[1])
all == Q(<<>>, <<>>, <<Count>>, Buy, 0)
---------------------------------------------------------------------------
(* the order in which events came does not matter *)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
NoOrder == \A m \in {M("countEvents", "count", "count"), M("countPerGroup", "avg", "count"), M("aggregateProperty", "avg", "count"), M("aggregatePropertyPerGroup", "avg", "avg")} :
             LET q == Q(<<>>, <<"color">>, <<m>>, Buy, 1) IN Report(D, q) = Report(Rev(D), q)
(* nor do the events of other projects *)
NoAliens == \A m \in {Count, M("aggregateProperty", "sum", "count")} :
              LET q == Q(<<>>, <<"color">>, <<m>>, Buy, 0) IN Report(D, q) = Report(Append(D, Alien), q)
(* a breakdown divides the events: what is counted or summed adds up, and least and greatest are those of the rows *)
Divides == \A m \in {Count, M("aggregateProperty", "sum", "count"), M("aggregateProperty", "count", "count"), M("aggregateProperty", "max", "count"), M("aggregateProperty", "min", "count")} :
  LET whole == RowsOf(D, Q(<<>>, <<>>, <<m>>, Buy, 0), Q(<<>>, <<>>, <<m>>, Buy, 0).evs[1])
      q == Q(<<>>, <<"color">>, <<m>>, Buy, 0)
      parts == RowsOf(D, q, q.evs[1])
  IN /\ (whole = {}) <=> (parts = {})
     /\ \A w \in whole : \A b \in 1..Len(w.cells) :
          LET P == {r \in parts : r.cells[b] # <<>>}
          IN /\ (w.cells[b] = <<>>) <=> (P = {})
             /\ P # {} => IF m.out = "max" THEN \E r \in P : r.cells[b] = w.cells[b] /\ \A s \in P : s.cells[b][1] <= w.cells[b][1]
                          ELSE IF m.out = "min" THEN \E r \in P : r.cells[b] = w.cells[b] /\ \A s \in P : s.cells[b][1] >= w.cells[b][1]
                          ELSE SumOf([r \in P |-> r.cells[b][1]], P) = w.cells[b][1]
(* a comparison and its opposite share out the events with a value; empty and exists share out all *)
Opposites ==
  LET S(f) == Sel(Q(<<f>>, <<>>, <<Count>>, Buy, 0))
      share(a, b, T) == S(a) \cup S(b) = T /\ S(a) \cap S(b) = {}
      A == Sel(all)
      C == S(Filt("color", "exists", <<>>))
      X == S(Filt("price", "exists", <<>>))
  IN /\ share(Filt("color", "exists", <<>>), Filt("color", "empty", <<>>), A)
     /\ share(Filt("color", "eq", <<<<"r">>>>), Filt("color", "neq", <<<<"r">>>>), C)
     /\ share(Filt("color", "like", <<<<"r">>, <<"ANY", "STAR">>>>), Filt("color", "notLike", <<<<"r">>, <<"ANY", "STAR">>>>), C)
     /\ \A y \in Prices : share(Filt("price", "lt", <<y>>), Filt("price", "gte", <<y>>), X) /\ share(Filt("price", "gt", <<y>>), Filt("price", "lte", <<y>>), X)
     /\ \A y \in Prices, z \in Prices : /\ S(Filt("price", "eq", <<y, z>>)) = S(Filt("price", "eq", <<y>>)) \cup S(Filt("price", "eq", <<z>>))
                                        /\ S(Filt("price", "neq", <<y, z>>)) = S(Filt("price", "neq", <<y>>)) \cap S(Filt("price", "neq", <<z>>))
(* filters go together; a custom event is any of its alternatives *)
Joins ==
  LET f == Filt("price", "gte", <<0>>)
      g == Filt("color", "exists", <<>>)
      S(fs, alts) == Sel(Q(fs, <<>>, <<Count>>, alts, 0))
  IN /\ S(<<f, g>>, Buy) = S(<<f>>, Buy) \cap S(<<g>>, Buy)
     /\ S(<<>>, <<[e |-> "Buy", f |-> <<f>>], [e |-> "Look", f |-> <<>>]>>) = S(<<f>>, Buy) \cup S(<<>>, Look)
     /\ S(<<>>, <<[e |-> "Buy", f |-> <<f>>], [e |-> "Buy", f |-> <<g>>]>>) = S(<<f>>, Buy) \cup S(<<g>>, Buy)
(* measures per owner: owners share out their events *)
Owners == \A g \in 0..1 :
  LET S == Sel(all)
      own == {i \in S : Who(D[i], g) # <<>>}
      priced == {i \in own : D[i].v["price"] # <<>>}
      price == [i \in priced |-> D[i].v["price"][1]]
      m(x) == Measure(D, x, g, S)
  IN /\ Val(m(M("countPerGroup", "sum", "count"))) = 100 * Cardinality(own)
     /\ Val(m(M("countPerGroup", "count", "count"))) = Val(m(M("countUniqueGroups", "count", "count")))
     /\ Same(m(M("countPerGroup", "avg", "count")), IF own = {} THEN <<>> ELSE <<100 * Cardinality(own), Cardinality({Who(D[i], g) : i \in own})>>)
     /\ \A f \in {"sum", "min", "max"} : Same(m(M("aggregatePropertyPerGroup", f, f)), Agg(f, price, priced))
     /\ Val(m(M("aggregatePropertyPerGroup", "sum", "count"))) = 100 * Cardinality(priced)
     /\ Val(m(M("aggregatePropertyPerGroup", "count", "avg"))) <= Val(m(M("countUniqueGroups", "count", "count")))
     /\ Val(m(M("countUniqueGroups", "count", "count"))) <= 100 * Cardinality(own)
(* what every implementation by parts relies on: parts that share no owner add up *)
ByParts == \A m \in {Count, M("countUniqueGroups", "count", "count"), M("countPerGroup", "sum", "count"), M("aggregatePropertyPerGroup", "sum", "avg")} :
  LET S == Sel(all)
      P(u) == {i \in S : D[i].u = u}
      w == Measure(D, m, 0, S)
      x == Measure(D, m, 0, P("a"))
      y == Measure(D, m, 0, P("b"))
      den(c) == IF c = <<>> THEN 1 ELSE c[2]
  IN Val(w) * den(x) * den(y) = (Val(x) * den(y) + Val(y) * den(x)) * den(w)
=============================================================================
