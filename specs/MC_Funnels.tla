----------------------------- MODULE MC_Funnels -----------------------------
(* One user's events, read one after the other: what the attempts say about the history.             *)
EXTENDS Funnels
CONSTANTS N, T
VARIABLES rows, s, p, done
vars == <<rows, s, p, done>>
Params == [n : {1, 2, 3}, any : {<< <<>>, <<>>, <<>> >>}, window : {1, 2, 9}, excl : {<<>>, << <<>> >>, << <<2, 2>> >>}, hold : BOOLEAN, unique : BOOLEAN, unit : {""}]
Shapes == {<<TRUE, FALSE, FALSE>>, <<FALSE, TRUE, FALSE>>, <<FALSE, FALSE, TRUE>>, <<TRUE, TRUE, FALSE>>}
Last == IF rows = <<>> THEN 0 ELSE rows[Len(rows)].t
RowsNow == [u : {<<1>>}, t : Last + 1..T, at : {0}, g : {""}, st : Shapes, ex : {<<TRUE>>, <<FALSE>>}, c : {"a", "b"}]
Sane(r) == (p.excl # <<>> \/ ~r.ex[1]) /\ (p.hold \/ r.c = "a")
Init == rows = <<>> /\ s = Start /\ p \in Params /\ done = FALSE
Add(r) == ~done /\ Len(rows) < N /\ Sane(r) /\ rows' = Append(rows, r) /\ s' = Read(p, s, r, Len(rows) + 1) /\ UNCHANGED <<p, done>>
Close == ~done /\ done' = TRUE /\ s' = End(s) /\ UNCHANGED <<rows, p>>
Next == (\E r \in RowsNow : Add(r)) \/ Close
Spec == Init /\ [][Next]_vars
All == [i \in 1..Len(rows) |-> i]
(* cutting the rows into batches is reading them one after the other *)
Batches == done => s.out = ReadAll(p, rows, Start, All).out
(* a chain: events in order, one for each step, within the window *)
Chain(is, k) == /\ Len(is) = k /\ \A j \in 1..k : rows[is[j]].st[j]
                /\ \A j \in 1..k - 1 : is[j] < is[j + 1]
                /\ rows[is[k]].t - rows[is[1]].t <= p.window
Chains(k) == {is \in [1..k -> 1..Len(rows)] : Chain(is, k)}
Times(is) == [j \in DOMAIN is |-> rows[is[j]].t]
Genuine == done => \A i \in DOMAIN s.out : \E is \in Chains(Len(s.out[i].ts)) : Times(is) = s.out[i].ts
(* attempts don't overlap, and begin in order *)
Apart == done => \A i, j \in DOMAIN s.out : i < j => s.out[i].ts[Len(s.out[i].ts)] < s.out[j].ts[1]
(* with time enough, whoever can complete k steps has an attempt that does *)
Found == done /\ p.excl = <<>> /\ ~p.hold /\ p.window > T => \A k \in 1..p.n : Chains(k) # {} => \E i \in DOMAIN s.out : Len(s.out[i].ts) >= k
(* steps never grow, and a user counts at most once uniquely, exactly as far as the best attempt *)
Counts == done => LET tr == Tries(p, rows, "") IN
  /\ \A k \in 1..p.n - 1 : Reach(tr, k + 1) \subseteq Reach(tr, k)
  /\ p.unique => Cardinality(tr) <= 1 /\ (s.out # <<>> => Cardinality(tr) = 1)
  /\ \A k \in 1..p.n : (Reach(tr, k) # {}) = (\E i \in DOMAIN s.out : Len(s.out[i].ts) >= k)
=============================================================================
