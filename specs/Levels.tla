------------------------------- MODULE Levels -------------------------------
(* How the flushed rows of a table are kept: parts in levels. The first level (index 1) gets a part *)
(* per flush; below it the parts of a level are apart from each other.                             *)
(* A part: id, size, rows (<<key, values>> in key order), lo and hi keys that enclose its own.      *)
EXTENDS Store, SequencesExt
Elems(q) == {q[i] : i \in 1..Len(q)}
RowsOf(parts) == FlattenSeq([i \in 1..Len(parts) |-> parts[i].rows])
RowsUpTo(L, k) == FlattenSeq([i \in 1..k |-> RowsOf(L[i])])
SizeOf(parts) == FoldSeq(LAMBDA p, a : a + p.size, 0, parts)
First(p) == p.rows[1][1]
Final(p) == p.rows[Len(p.rows)][1]
PartOk(p) == /\ Len(p.rows) > 0 /\ p.n = Len(p.rows)
             /\ Leq(p.lo, First(p)) /\ Leq(Final(p), p.hi)
             /\ \A i \in 1..Len(p.rows) - 1 : Leq(p.rows[i][1], p.rows[i + 1][1])
(* what a key has in front of its version; without versions a key may end one part and begin the next *)
Below(t, p, q) == LET n == KeyLen(t)  a == Pre(Final(p), n)  b == Pre(First(q), n) IN Leq(a, b) /\ (t.rep => a # b)
Apart(t, p, q) == Below(t, p, q) \/ Below(t, q, p)
UniqueIds(L) == \A k \in 1..Len(L) : Cardinality({p.id : p \in Elems(L[k])}) = Len(L[k])
AllApart(t, L) == \A k \in 2..Len(L) : \A i, j \in 1..Len(L[k]) : i < j => Apart(t, L[k][i], L[k][j])
Included(a, b) == \A x \in DOMAIN a : x \in DOMAIN b /\ a[x] <= b[x]
SameBag(a, b) == Included(a, b) /\ Included(b, a)
(* every flushed row is in one part; a table that replaces rows has at least the latest of each key *)
Holds(t, cols, L) ==
  LET have == BagOf(RowsUpTo(L, Len(L)))
      want == LET F(r) == Shown(r, cols) IN [x \in {F(r) : r \in DOMAIN t.rows} |-> FoldSet(LAMBDA r, a : a + t.rows[r], 0, {r \in DOMAIN t.rows : F(r) = x})] IN
  IF t.rep THEN /\ Included(have, want)
                /\ \A r \in Latest(t, DOMAIN t.rows) : \E x \in Latest(t, DOMAIN t.rows) : Pre(x.k, t.idx - 1) = Pre(r.k, t.idx - 1) /\ Shown(x, cols) \in DOMAIN have
  ELSE SameBag(have, want)
(* a part kept is the part it was, and no id comes back *)
KeptOk(old, new) == \A k \in 1..Len(new) : \A p \in Elems(new[k]) : (\E q \in Elems(old[k]) : q.id = p.id /\ q.lo = p.lo /\ q.hi = p.hi /\ q.n = p.n) \/ \A q \in Elems(old[k]) : p.id > q.id
FlushOk(old, new, rows) == /\ Len(new) = Len(old) /\ \A k \in 2..Len(old) : new[k] = old[k]
                           /\ IF rows = NoRows THEN new[1] = old[1] ELSE Len(new[1]) = Len(old[1]) + 1 /\ SubSeq(new[1], 1, Len(old[1])) = old[1]
                           /\ KeptOk(old, new)
Power(b, n) == IF n = 0 THEN 1 ELSE b ^ n
Limit(o, k) == o.l1 * Power(o.lmul, k - 2)                     \* of the level at index k > 1
(* One round: nothing while the first level is within its number of parts. Otherwise it is emptied  *)
(* into the second, and every level that got rows passes on what is above its size, except the last *)
(* two. Rows only go down.                                                                         *)
Flowed(old, new, k) == ~SameBag(BagOf(RowsUpTo(old, k)), BagOf(RowsUpTo(new, k)))
RoundOk(o, rep, old, new) ==
  IF Len(old[1]) <= o.l0 \/ Len(old) < 3 THEN new = old
  ELSE /\ Len(new) = Len(old) /\ new[1] = <<>> /\ KeptOk(old, new)
       /\ \A k \in 1..Len(old) : Included(BagOf(RowsUpTo(new, k)), BagOf(RowsUpTo(old, k)))
       /\ \A k \in 2..Len(old) - 2 : Flowed(old, new, k - 1) => SizeOf(new[k]) <= Limit(o, k)
=============================================================================
