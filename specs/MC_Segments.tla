----------------------------- MODULE MC_Segments ----------------------------
(* One pass over a history ordered by user, comparing at every change of user and at the end, finds  *)
(* exactly the users whose history meets the condition - those without a single event of interest    *)
(* among them; and the law of and/or.                                                                *)
EXTENDS Segments
CONSTANTS N
VARIABLES rows, s, c, done
vars == <<rows, s, c, done>>
W == {[from |-> 0, to |-> 2], [from |-> 1, to |-> 1]}
Conds == [k : {"count"}, w : W, all : {TRUE, FALSE}, op : {"eq", "neq", "lt", "lte", "gt", "gte"}, right : {0, 100, 200}]
         \cup [k : {"agg"}, w : W, all : {TRUE, FALSE}, op : {"eq", "neq", "lt", "gte"}, fn : {"sum", "avg", "min", "max", "count"}, right : {0, 100}]
RowsOf(last) == {r \in [u : {<<>>, <<1>>, <<2>>}, t : {0, 1}, m : {TRUE, FALSE}, v : {<<>>, <<100>>, <<-100>>}] : r.u = <<>> \/ last <= r.u[1]}
LastUser == IF s.u = <<>> THEN 0 ELSE s.u[1]
Init == rows = <<>> /\ s = Start /\ c \in Conds /\ done = FALSE
Add(r) == ~done /\ Len(rows) < N /\ rows' = Append(rows, r) /\ s' = Read(s, r, c) /\ UNCHANGED <<c, done>>
End == ~done /\ done' = TRUE /\ s' = Close(s, c) /\ UNCHANGED <<rows, c>>
Next == (\E r \in RowsOf(LastUser) : Add(r)) \/ End
Spec == Init /\ [][Next]_vars
Right == done => s.out = Segment(rows, c)
(* what does not meet a count meets its complement, also for users who never did it *)
Not(op) == CASE op = "eq" -> "neq" [] op = "neq" -> "eq" [] op = "lt" -> "gte" [] op = "gte" -> "lt" [] op = "lte" -> "gt" [] OTHER -> "lte"
Complement == done /\ c.k = "count" => Segment(rows, [c EXCEPT !.op = Not(c.op)]) = Users(rows) \ Segment(rows, c)
Laws == done => /\ Segment(rows, [k |-> "and", l |-> c, r |-> [c EXCEPT !.all = ~c.all]]) = Segment(rows, c) \cap Segment(rows, [c EXCEPT !.all = ~c.all])
                /\ Segment(rows, [k |-> "or", l |-> c, r |-> [c EXCEPT !.all = ~c.all]]) = Segment(rows, c) \cup Segment(rows, [c EXCEPT !.all = ~c.all])
=============================================================================
