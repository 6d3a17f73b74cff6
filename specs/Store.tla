------------------------------- MODULE Store --------------------------------
(* What a store shows its users: tables of rows, each row a key (whole numbers) and named values.  *)
(* Maintenance (flushing, compacting, collecting garbage, reopening) does not appear in it: it      *)
(* changes nothing that can be seen. In a replacing table the last part of the key is a version and *)
(* one row with the highest version is shown for each key before it.                                *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, FiniteSetsExt, TLC
(* bags as functions from elements to their number *)
NoRows == [x \in {} |-> 0]
Plus(b, x) == [y \in DOMAIN b \cup {x} |-> (IF y \in DOMAIN b THEN b[y] ELSE 0) + (IF y = x THEN 1 ELSE 0)]
Size(b) == FoldSet(LAMBDA x, a : a + b[x], 0, DOMAIN b)
BagOf(q) == LET els == {q[i] : i \in 1..Len(q)} IN [x \in els |-> Cardinality({i \in 1..Len(q) : q[i] = x})]
(* keys are compared one part after the other *)
Leq(a, b) == a = b \/ \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in 1..i - 1 : a[j] = b[j]
Pre(k, n) == SubSeq(k, 1, n)
(* a row: k is its key, v the set of <<column, value>> it has values for *)
Row(key, v) == [k |-> key, v |-> {<<v[i][1], v[i][2]>> : i \in {i \in 1..Len(v) : v[i][2] # "null"}}]
Value(r, c) == IF \E p \in r.v : p[1] = c THEN (CHOOSE p \in r.v : p[1] = c)[2] ELSE "null"
Shown(r, cols) == <<r.k, [i \in 1..Len(cols) |-> Value(r, cols[i])]>>
NewTable(idx, rep) == [idx |-> idx, rep |-> rep, cols |-> {}, rows |-> NoRows]
KeyLen(t) == IF t.rep THEN t.idx - 1 ELSE t.idx
Version(t, r) == r.k[t.idx]
(* the rows that may be shown of those in R *)
Latest(t, R) == IF t.rep THEN {r \in R : \A x \in R : Pre(x.k, t.idx - 1) = Pre(r.k, t.idx - 1) => x.k[t.idx] <= r.k[t.idx]} ELSE R
(* o is a right answer to a scan of cols *)
ScanOk(t, cols, o) ==
  /\ \A i \in 1..Len(o) - 1 : Leq(o[i][1], o[i + 1][1])
  /\ IF t.rep THEN
       LET new == Latest(t, DOMAIN t.rows)  keys == {Pre(r.k, t.idx - 1) : r \in new}  shown == {Shown(r, cols) : r \in new} IN
       /\ Len(o) = Cardinality(keys)
       /\ {Pre(o[i][1], t.idx - 1) : i \in 1..Len(o)} = keys
       /\ \A i \in 1..Len(o) : o[i] \in shown
     ELSE
       /\ Len(o) = Size(t.rows)
       /\ \A w \in {Shown(r, cols) : r \in DOMAIN t.rows} :
            Cardinality({i \in 1..Len(o) : o[i] = w}) = FoldSet(LAMBDA r, a : a + t.rows[r], 0, {r \in DOMAIN t.rows : Shown(r, cols) = w})
(* a scan may leave out parts of the key: ks are those it shows *)
ShownPart(r, ks, cols) == <<[i \in 1..Len(ks) |-> r.k[ks[i]]], [i \in 1..Len(cols) |-> Value(r, cols[i])]>>
ScanPartOk(t, ks, cols, o) ==
  /\ (\A i \in 1..Len(ks) : ks[i] = i) => \A i \in 1..Len(o) - 1 : Leq(o[i][1], o[i + 1][1])
  /\ IF t.rep THEN
       LET new == Latest(t, DOMAIN t.rows)  keys == {Pre(r.k, t.idx - 1) : r \in new}
           of(k) == {ShownPart(r, ks, cols) : r \in {r \in new : Pre(r.k, t.idx - 1) = k}} IN
       /\ Len(o) = Cardinality(keys)
       /\ \A k \in keys : \E i \in 1..Len(o) : o[i] \in of(k)
       /\ \A i \in 1..Len(o) : \E k \in keys : o[i] \in of(k)
     ELSE
       /\ Len(o) = Size(t.rows)
       /\ \A w \in {ShownPart(r, ks, cols) : r \in DOMAIN t.rows} :
            Cardinality({i \in 1..Len(o) : o[i] = w}) = FoldSet(LAMBDA r, a : a + t.rows[r], 0, {r \in DOMAIN t.rows : ShownPart(r, ks, cols) = w})
Matching(t, key) == Latest(t, {r \in DOMAIN t.rows : Pre(r.k, Len(key)) = key})
GetOk(t, key, cols, o) == LET m == Matching(t, key) IN IF m = {} THEN o = <<>> ELSE Len(o) = 1 /\ \E r \in m : Shown(r, cols) = o[1]

(* ---- a store: its tables, the backups taken, and the versions read for a conditional write.     *)
(* A version read is good for one write and for nothing once the row was written (0).              *)
Empty == [tabs |-> [x \in {} |-> NewTable(1, FALSE)], baks |-> [x \in {} |-> 0], marks |-> {}]
Tab(s, t, T) == [s EXCEPT !.tabs = (t :> T) @@ s.tabs]
Create(s, t, idx, rep) == Tab(s, t, NewTable(idx, rep))
Field(s, t, f) == Tab(s, t, [s.tabs[t] EXCEPT !.cols = @ \cup {f}])
At(s, t, key) == <<t, Pre(key, s.tabs[t].idx - 1)>>
MarksAt(s, at) == {m \in s.marks : m[1] = at}
Mark(s, at, v) == [s EXCEPT !.marks = (@ \ MarksAt(s, at)) \cup {<<at, v>>}]
Void(s, at) == IF MarksAt(s, at) = {} THEN s ELSE Mark(s, at, 0)
Insert(s, t, row) == Void(Tab(s, t, [s.tabs[t] EXCEPT !.rows = Plus(@, row)]), At(s, t, row.k))
Accepts(s, t, key) == \A m \in MarksAt(s, At(s, t, key)) : m[2] = key[s.tabs[t].idx]
Replace(s, t, row) == Insert(s, t, row)
Restart(s) == [s EXCEPT !.marks = {}]
Backup(s, b) == [s EXCEPT !.baks = (b :> s.tabs) @@ s.baks]
Restore(s, b) == [s EXCEPT !.tabs = s.baks[b], !.marks = {}]
(* ---- what always holds *)
KeysFit(s) == \A t \in DOMAIN s.tabs : \A r \in DOMAIN s.tabs[t].rows : Len(r.k) = s.tabs[t].idx /\ {p[1] : p \in r.v} \subseteq s.tabs[t].cols
(* a version good for a conditional write is the one a reader would get *)
MarksFresh(s) == \A m \in s.marks : m[2] = 0 \/ \E r \in Matching(s.tabs[m[1][1]], m[1][2]) : Version(s.tabs[m[1][1]], r) = m[2]
=============================================================================
