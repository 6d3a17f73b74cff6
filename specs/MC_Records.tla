----------------------------- MODULE MC_Records -----------------------------
EXTENDS Records
(* Design check: records come one at a time; the laws of searching them hold in every state.        *)
CONSTANTS N, Prices
VARIABLE D
vars == <<D>>
At(d) == [d |-> d, s |-> 0, n |-> 0]
Txt(x) == IF x = <<>> THEN "~" ELSE ToString(x[1])
Made == {[p |-> p, grp |-> g, e |-> e, t |-> At(m), v |-> [price |-> x, color |-> c, when |-> <<>>]] :
           p \in {0, 1}, g \in {-1, 0}, e \in {"Buy", "Look"}, m \in {10, 20}, x \in {<<>>} \cup {<<y>> : y \in Prices}, c \in {<<>>, <<<<"r">>>>}}
Full(r, n) == [p |-> r.p, grp |-> r.grp, n |-> n, e |-> IF r.grp < 0 THEN r.e ELSE "", t |-> r.t, v |-> r.v,
               s |-> [price |-> Txt(r.v.price), color |-> IF r.v.color = <<>> THEN "~" ELSE "r", event_id |-> ToString(n), id |-> ToString(n)]]
Init == D = <<>>
Next == /\ Len(D) < N
        /\ \E r \in Made : D' = Append(D, Full(r, Len(D) + 1))
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
Time == [k |-> "between", from |-> At(10), cur |-> At(15), n |-> 0, unit |-> ""]
Filt(p, op, vals) == [p |-> p, op |-> op, vals |-> vals]
Q(p, g, all, evs, glob) == [p |-> p, grp |-> g, all |-> all, time |-> Time, evs |-> evs, glob |-> glob, keys |-> <<"price", "event_id">>]
Ev(e, f) == [alts |-> <<[e |-> e, f |-> <<>>]>>, f |-> f]
Filters == {<<>>, <<Filt("price", "empty", <<>>)>>, <<Filt("price", "exists", <<>>)>>, <<Filt("color", "eq", <<<<"r">>>>)>>, <<Filt("price", "gt", <<0>>)>>}
Qs == {Q(p, g, a, evs, f) : p \in {0, 1}, g \in {-1, 0}, a \in {TRUE, FALSE}, f \in Filters, evs \in {<<>>, <<Ev("Buy", <<>>)>>}}
(* the right answer, built the straight way *)
RECURSIVE Down(_, _)
Down(S, q) == IF S = {} THEN <<>> ELSE LET i == CHOOSE x \in S : \A y \in S : D[x].n >= D[y].n
                                           row == [k \in {q.keys[j] : j \in 1..Len(q.keys)} |-> D[i].s[k]]
                                       IN <<row>> \o Down(S \ {i}, q)
Answer(q) == Down(Found(D, q), q)
Nought(rows) == [i \in 1..Len(rows) |-> [rows[i] EXCEPT !["price"] = IF @ = "~" THEN "0" ELSE @]]
Right == \A q \in Qs : SearchShows(D, q, Answer(q)) /\ SearchShows(D, q, Nought(Answer(q)))
(* losing, repeating or (of events) swapping rows shows *)
Wrong == \A q \in Qs : LET a == Answer(q) IN a # <<>> =>
           /\ ~SearchShows(D, q, Tail(a)) /\ ~SearchShows(D, q, a \o <<Head(a)>>)
           /\ (q.grp < 0 /\ Len(a) > 1) => ~SearchShows(D, q, <<a[2], a[1]>> \o SubSeq(a, 3, Len(a)))
(* a search is split by whether a value is there, narrowed by time, names and filters, and about one project *)
Splits == \A p \in {0, 1}, g \in {-1, 0} :
            LET F(f) == Found(D, Q(p, g, TRUE, <<>>, f)) IN
            /\ F(<<Filt("price", "empty", <<>>)>>) \cup F(<<Filt("price", "exists", <<>>)>>) = F(<<>>)
            /\ F(<<Filt("price", "empty", <<>>)>>) \cap F(<<Filt("price", "exists", <<>>)>>) = {}
Narrows == \A q \in Qs : /\ Found(D, q) \subseteq Found(D, [q EXCEPT !.all = TRUE])
                         /\ Found(D, q) \subseteq Found(D, [q EXCEPT !.evs = <<>>])
                         /\ Found(D, q) \subseteq Found(D, [q EXCEPT !.glob = <<>>])
                         /\ \A i \in Found(D, q) : D[i].p = q.p
Joins == \A f \in Filters : Found(D, Q(0, -1, TRUE, <<Ev("Buy", f), Ev("Look", <<>>)>>, <<>>)) = Found(D, Q(0, -1, TRUE, <<Ev("Buy", f)>>, <<>>)) \cup Found(D, Q(0, -1, TRUE, <<Ev("Look", <<>>)>>, <<>>))
(* every record is found by its own id *)
ById == \A i \in DOMAIN D : OneShows(D, [p |-> D[i].p, grp |-> D[i].grp, id |-> ToString(D[i].n)], 200, D[i].s) /\ ~OneShows(D, [p |-> 1 - D[i].p, grp |-> D[i].grp, id |-> ToString(D[i].n)], 200, D[i].s)
(* the values of a property are those the events show *)
Shows1 == \A p \in {0, 1} : Taken(D, [p |-> p, prop |-> "price", evs |-> <<>>, f |-> <<>>]) = {D[i].s.price : i \in {j \in DOMAIN D : D[j].p = p /\ D[j].grp = -1}}
=============================================================================
