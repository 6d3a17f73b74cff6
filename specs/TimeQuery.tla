------------------------------ MODULE TimeQuery -----------------------------
(* Query windows, interval lengths and time buckets (properties C02, C03).                        *)
EXTENDS Calendar
Units == {"hour", "day", "week", "month", "year"}
Plus(t, u, n) == CASE u = "hour" -> AddHours(t, n) [] u = "day" -> AddDays(t, n) [] u = "week" -> AddDays(t, 7 * n)
                   [] u = "month" -> AddMonths(t, n) [] OTHER -> AddMonths(t, 12 * n)
WindowLast(cur, u, n) == [from |-> Plus(cur, u, -n), to |-> cur]
(* fixed lengths, as whole days and remaining seconds *)
Length(u, n) == CASE u = "hour" -> [ds |-> n \div 24, ss |-> (n % 24) * 3600] [] u = "day" -> [ds |-> n, ss |-> 0] [] u = "week" -> [ds |-> 7 * n, ss |-> 0]
                  [] u = "month" -> [ds |-> 31 * n, ss |-> 0] [] OTHER -> [ds |-> 372 * n, ss |-> 0]
Trunc(t, u) ==
  CASE u = "hour" -> [d |-> t.d, s |-> (t.s \div 3600) * 3600, n |-> 0]
    [] u = "day" -> [d |-> t.d, s |-> 0, n |-> 0]
    [] u = "week" -> [d |-> t.d - Monday0(t.d), s |-> 0, n |-> 0]
    [] u = "month" -> LET c == Civil(t.d) IN [d |-> DaysFromCivil(c.y, c.m, 1), s |-> 0, n |-> 0]
    [] OTHER -> LET c == Civil(t.d) IN [d |-> DaysFromCivil(c.y, 1, 1), s |-> 0, n |-> 0]
RECURSIVE BucketsFrom(_, _, _)
BucketsFrom(b, last, u) == IF Lt(last, b) THEN <<>> ELSE <<b>> \o BucketsFrom(Plus(b, u, 1), last, u)
Buckets(from, to, u) == BucketsFrom(Trunc(from, u), Trunc(to, u), u)
Columns(from, to, u) == LET b == Buckets(from, to, u) IN [i \in 1..Len(b) |-> Text(b[i])]
=============================================================================
