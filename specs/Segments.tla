------------------------------ MODULE Segments ------------------------------
(* Which users belong to a segment (property Q02): a segment is a condition on the whole history   *)
(* of a user. Two views of the same thing: Contained is what is meant, and Run below is a machine   *)
(* that reads the history once, in any batches, and must come to the same answer.                   *)
(* row [u, t, m, v, ..]: user, instant, whether the event is of interest, value <<>> or <<hundredths>> *)
EXTENDS Integers, Sequences, FiniteSets
Cmp(op, a, b) == CASE op = "eq" -> a = b [] op = "neq" -> a # b [] op = "lt" -> a < b [] op = "lte" -> a <= b [] op = "gt" -> a > b [] OTHER -> a >= b
Interest(r, c) == (c.all \/ r.m) /\ c.w.from <= r.t /\ r.t <= c.w.to
RECURSIVE Sum(_, _)
Sum(R, S) == IF S = {} THEN 0 ELSE LET i == CHOOSE j \in S : TRUE IN R[i].v[1] + Sum(R, S \ {i})
(* "never did it" is a count of zero; an aggregate of nothing compares to nothing *)
RECURSIVE Contained(_, _, _)
Contained(R, u, c) ==
  CASE c.k = "and" -> Contained(R, u, c.l) /\ Contained(R, u, c.r)
    [] c.k = "or" -> Contained(R, u, c.l) \/ Contained(R, u, c.r)
    [] c.k = "count" -> Cmp(c.op, 100 * Cardinality({i \in DOMAIN R : R[i].u = <<u>> /\ Interest(R[i], c)}), c.right)
    [] OTHER -> LET S == {i \in DOMAIN R : R[i].u = <<u>> /\ Interest(R[i], c) /\ R[i].v # <<>>}
                IN /\ S # {}
                   /\ CASE c.fn = "sum" -> Cmp(c.op, Sum(R, S), c.right)
                        [] c.fn = "avg" -> Cmp(c.op, Sum(R, S), c.right * Cardinality(S))
                        [] c.fn = "count" -> Cmp(c.op, 100 * Cardinality(S), c.right)
                        [] c.fn = "min" -> Cmp(c.op, R[CHOOSE i \in S : \A j \in S : R[i].v[1] <= R[j].v[1]].v[1], c.right)
                        [] OTHER -> Cmp(c.op, R[CHOOSE i \in S : \A j \in S : R[i].v[1] >= R[j].v[1]].v[1], c.right)
Users(R) == {R[i].u[1] : i \in {j \in DOMAIN R : R[j].u # <<>>}}
Segment(R, c) == {u \in Users(R) : Contained(R, u, c)}
(* every user once, ascending *)
Lists(out, S) == Len(out) = Cardinality(S) /\ {out[i] : i \in DOMAIN out} = S /\ \A i, j \in DOMAIN out : i < j => out[i] < out[j]
---------------------------------------------------------------------------
(* The machine: a history ordered by user is read row by row. State of one condition:               *)
(* u: the user being read (<<>> at first), n and x: how many values and their aggregate, out: users  *)
Start == [u |-> <<>>, n |-> 0, x |-> 0, out |-> {}]
Meets(s, c) == IF c.k = "count" THEN Cmp(c.op, 100 * s.n, c.right)
               ELSE s.n > 0 /\ (IF c.fn = "avg" THEN Cmp(c.op, s.x, c.right * s.n) ELSE IF c.fn = "count" THEN Cmp(c.op, 100 * s.n, c.right) ELSE Cmp(c.op, s.x, c.right))
Close(s, c) == IF s.u = <<>> THEN s ELSE [u |-> <<>>, n |-> 0, x |-> 0, out |-> IF Meets(s, c) THEN s.out \cup {s.u[1]} ELSE s.out]
Read(s, r, c) ==
  IF r.u = <<>> THEN s
  ELSE LET o == IF s.u = r.u THEN s ELSE [Close(s, c) EXCEPT !.u = r.u]
       IN IF ~Interest(r, c) \/ (c.k = "agg" /\ r.v = <<>>) THEN o
          ELSE [o EXCEPT !.n = @ + 1,
                         !.x = IF c.k = "count" \/ c.fn = "count" THEN 0
                               ELSE IF o.n = 0 THEN r.v[1]
                               ELSE IF c.fn = "min" THEN (IF @ < r.v[1] THEN @ ELSE r.v[1])
                               ELSE IF c.fn = "max" THEN (IF @ > r.v[1] THEN @ ELSE r.v[1])
                               ELSE @ + r.v[1]]
=============================================================================
