----------------------------- MODULE Funnels --------------------------------
(* Funnels (Q05). The events of a user in a group are read in order of time. An attempt begins with  *)
(* an event that matches the first step and advances with each next one that matches the step        *)
(* waited for. It ends, and counts for the steps it completed, when all steps are completed, when an  *)
(* event comes later than the window allows, or with the user's last event. An excluded event, or one *)
(* whose constant has changed, makes it void: it doesn't count. The event which ended an attempt      *)
(* before completion may begin the next one. Counting everything, all attempts count; counting        *)
(* uniquely, each user counts once, with the (first) attempt that got furthest.                       *)
(*                                                                                                    *)
(* row  [u, t, at, g, st, ex, c]: user (<<>> or <<id>>), time, instant, group, what steps and         *)
(*      exclusions it matches, its constants                                                          *)
(* P    [n, any, window, excl, hold, unique, unit]: any[k] = <<>> (exactly step k) or the steps that  *)
(*      may be taken instead; excl[i] = <<>> or <<from, to>>, counting steps from 0                   *)
EXTENDS TimeQuery, FiniteSets
Start == [i0 |-> 0, ts |-> <<>>, c |-> "", out |-> <<>>]
End(s) == IF s.ts = <<>> THEN s ELSE [s EXCEPT !.out = Append(@, [i0 |-> s.i0, ts |-> s.ts]), !.ts = <<>>]
Hits(P, r, k) == IF P.any[k] = <<>> THEN r.st[k] ELSE \E i \in DOMAIN P.any[k] : \E j \in P.any[k][i][1]..P.any[k][i][2] : r.st[j + 1]
Voids(P, r, k) == \E i \in DOMAIN P.excl : r.ex[i] /\ (P.excl[i] = <<>> \/ (P.excl[i][1] <= k /\ k <= P.excl[i][2]))
Read(P, s, r, i) ==
  LET a == IF s.ts # <<>> /\ r.t - s.ts[1] > P.window THEN End(s) ELSE s
      void == a.ts # <<>> /\ (Voids(P, r, Len(a.ts)) \/ (P.hold /\ r.c # a.c))
      b == IF void THEN [a EXCEPT !.ts = <<>>] ELSE a
      d == IF ~Hits(P, r, Len(b.ts) + 1) THEN b
           ELSE IF b.ts = <<>> THEN [b EXCEPT !.ts = <<r.t>>, !.c = r.c, !.i0 = i] ELSE [b EXCEPT !.ts = Append(@, r.t)]
  IN IF Len(d.ts) = P.n THEN End(d) ELSE d
RECURSIVE ReadAll(_, _, _, _)
ReadAll(P, R, s, q) == IF q = <<>> THEN End(s) ELSE ReadAll(P, R, Read(P, s, R[Head(q)], Head(q)), Tail(q))
(* the attempts of a user that count; q: the user's rows, in order of time *)
Best(A) == IF A = <<>> THEN A ELSE LET i == CHOOSE i \in DOMAIN A : \A j \in DOMAIN A : Len(A[j].ts) < Len(A[i].ts) \/ (Len(A[j].ts) = Len(A[i].ts) /\ i <= j) IN <<A[i]>>
Attempts(P, R, q) == LET A == ReadAll(P, R, Start, q).out IN IF P.unique THEN Best(A) ELSE A
RECURSIVE Sum(_, _)
Sum(f(_), S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f(x) + Sum(f, S \ {x})
Abs(x) == IF x < 0 THEN -x ELSE x
Bucket(P, at) == IF P.unit = "" THEN "all" ELSE Text(Trunc(at, P.unit))
Users(R) == {R[i].u[1] : i \in {i \in DOMAIN R : R[i].u # <<>>}}
RECURSIVE Select(_, _, _)
Select(R, p(_), i) == IF i > Len(R) THEN <<>> ELSE (IF p(R[i]) THEN <<i>> ELSE <<>>) \o Select(R, p, i + 1)
(* all attempts that count in a group *)
Tries(P, R, g) == UNION {LET A == Attempts(P, R, Select(R, LAMBDA r : r.u = <<u>> /\ r.g = g, 1)) IN {A[i] : i \in DOMAIN A} : u \in Users(R)}
Reach(T, k) == {a \in T : Len(a.ts) >= k}
(* what is said of a step: total and times in thousandths of a second, ratios in hundredths of a percent *)
StepOk(T, k, x) ==
  LET total == Cardinality(Reach(T, k))
      first == Cardinality(T)
      ttc == IF k = 1 THEN 0 ELSE Sum(LAMBDA a : a.ts[k] - a.ts[k - 1], Reach(T, k))
      ttcs == Sum(LAMBDA a : a.ts[k] - a.ts[1], Reach(T, k))
  IN /\ x.total = total /\ x.ttc = ttc /\ x.ttcs = ttcs
     /\ x.dropped = IF k = 1 THEN 0 ELSE Cardinality(Reach(T, k - 1)) - total
     /\ Abs(x.conv - ((total * 10000) \div first)) <= 1
     /\ Abs(x.dropr - (((first - total) * 10000) \div first)) <= 1
     /\ IF total = 0 THEN x.avg = 0 /\ x.avgs = 0 ELSE Abs(x.avg - (ttc \div total)) <= 1 /\ Abs(x.avgs - (ttcs \div total)) <= 1
(* one row for every group and time bucket in which somebody began *)
Answer(P, R, out) ==
  LET groups == {R[i].g : i \in DOMAIN R}
      tries == [g \in groups |-> Tries(P, R, g)]
      want == UNION {{<<g, Bucket(P, R[a.i0].at)>> : a \in tries[g]} : g \in groups}
      Key(o) == <<o.g, o.ts>>
  IN /\ Len(out) = Cardinality(want) /\ {Key(out[i]) : i \in DOMAIN out} = want
     /\ \A i \in DOMAIN out : LET T == {a \in tries[out[i].g] : Bucket(P, R[a.i0].at) = out[i].ts} IN \A k \in 1..P.n : StepOk(T, k, out[i].steps[k])
=============================================================================
