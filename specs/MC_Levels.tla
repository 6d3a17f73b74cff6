----------------------------- MODULE MC_Levels ------------------------------
(* The rounds of compaction of Levels, made by one rule of choosing and cutting: parts of a level    *)
(* above its size go down together with the parts of the next level they touch; what they merge to  *)
(* is cut into parts of at most PartRows rows. A part's size is its number of rows.                 *)
EXTENDS Levels
CONSTANTS Keys, Vers, MaxRows, Rep, O, NLevels, PartRows
OO == [l0 |-> 1, l1 |-> 1, lmul |-> 2]
VARIABLES t, mem, L, n
vars == <<t, mem, L, n>>
KeySet == IF Rep THEN {<<k, v>> : k \in Keys, v \in Vers} ELSE {<<k>> : k \in Keys}
Mk(id, rows) == [id |-> id, size |-> Len(rows), n |-> Len(rows), rows |-> rows, lo |-> rows[1][1], hi |-> rows[Len(rows)][1]]
RowLeq(a, b) == Leq(a[1], b[1])
SortedRows(q) == SortSeq(q, LAMBDA a, b : a # b /\ RowLeq(a, b) /\ ~RowLeq(b, a))
(* of each key before the version the row with the highest *)
Dedup(q) == IF ~Rep THEN q ELSE SelectSeq(q, LAMBDA x : \A i \in 1..Len(q) : Pre(q[i][1], 1) = Pre(x[1], 1) => q[i][1][2] <= x[1][2])
RECURSIVE Cut(_, _)
Cut(q, id) == IF q = <<>> THEN <<>> ELSE IF Len(q) <= PartRows THEN <<Mk(id, q)>> ELSE <<Mk(id, SubSeq(q, 1, PartRows))>> \o Cut(SubSeq(q, PartRows + 1, Len(q)), id + 1)
Next1(parts) == FoldSeq(LAMBDA p, a : IF p.id >= a THEN p.id + 1 ELSE a, 1, parts)
Without(parts, S) == SelectSeq(parts, LAMBDA p : p.id \notin S)
Total(parts, i) == FoldSeq(LAMBDA p, a : a + p.size, 0, SubSeq(parts, 1, i))
Above(parts, k) == {parts[i].id : i \in {i \in 1..Len(parts) : Total(parts, i) > Limit(O, k)}}
Touch(p, q) == LET m == 1 IN Leq(Pre(p.lo, m), Pre(q.hi, m)) /\ Leq(Pre(q.lo, m), Pre(p.hi, m))
Hull(S) == [lo |-> CHOOSE a \in {p.lo : p \in S} : \A p \in S : Leq(a, p.lo), hi |-> CHOOSE a \in {p.hi : p \in S} : \A p \in S : Leq(p.hi, a)]
RECURSIVE Down(_, _, _)
Down(M, k, next) ==
  IF k > NLevels - 2 THEN M
  ELSE LET ids == IF k = 1 THEN (IF Len(M[1]) > O.l0 THEN {p.id : p \in Elems(M[1])} ELSE {}) ELSE Above(M[k], k) IN
       IF ids = {} THEN M
       ELSE LET ps == {p \in Elems(M[k]) : p.id \in ids}
                qs == {q \in Elems(M[k + 1]) : Touch(Hull(ps), q)}
                rows == Dedup(SortedRows(RowsOf(SelectSeq(M[k], LAMBDA p : p \in ps)) \o RowsOf(SelectSeq(M[k + 1], LAMBDA q : q \in qs))))
                add == IF Cardinality(ps) = 1 /\ qs = {} THEN <<[(CHOOSE p \in ps : TRUE) EXCEPT !.id = next[k + 1]]>> ELSE Cut(rows, next[k + 1])
            IN Down([M EXCEPT ![k] = Without(@, ids), ![k + 1] = Without(@, {q.id : q \in qs}) \o add], k + 1, [next EXCEPT ![k + 1] = @ + Len(add)])
Init == t = NewTable(IF Rep THEN 2 ELSE 1, Rep) /\ mem = <<>> /\ L = [k \in 1..NLevels |-> <<>>] /\ n = [k \in 1..NLevels |-> 1]
Arrive == Size(t.rows) + Len(mem) < MaxRows /\ \E k \in KeySet : (Rep => (<<k, <<>>>> \notin Elems(mem) /\ [k |-> k, v |-> {}] \notin DOMAIN t.rows)) /\ mem' = Append(mem, <<k, <<>>>>) /\ UNCHANGED <<t, L, n>>
Flush == /\ mem # <<>> /\ mem' = <<>>
         /\ t' = [t EXCEPT !.rows = FoldSeq(LAMBDA r, b : Plus(b, [k |-> r[1], v |-> {}]), @, mem)]
         /\ L' = [L EXCEPT ![1] = Append(@, Mk(n[1], Dedup(SortedRows(mem))))] /\ n' = [n EXCEPT ![1] = @ + 1]
Round == /\ L' = Down(L, 1, n) /\ L' # L
         /\ n' = [k \in 1..NLevels |-> LET m == Next1(L'[k]) IN IF m > n[k] THEN m ELSE n[k]]
         /\ UNCHANGED <<t, mem>>
Next == Arrive \/ Flush \/ Round
Spec == Init /\ [][Next]_vars
Laws == /\ \A k \in 1..NLevels : \A p \in Elems(L[k]) : PartOk(p)
        /\ UniqueIds(L) /\ AllApart(t, L) /\ Holds(t, <<>>, L)
Rounds == [][Round => RoundOk(O, Rep, L, L')]_vars
=============================================================================
