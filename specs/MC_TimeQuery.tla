---------------------------- MODULE MC_TimeQuery ---------------------------
EXTENDS TimeQuery
(* Design check: an instant t and a later instant v advance; the bucket laws hold in every state. *)
CONSTANTS DayLo, DayHi, Secs, Spans
VARIABLES t, v
vars == <<t, v>>
Init == t \in Instants(DayLo..DayHi, Secs, {0, 1}) /\ v = t
Next == /\ \E u \in Units, k \in Spans : v' = Plus(v, u, k)
        /\ v = t                      \* one jump per start
        /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
CivilInverse == LET c == Civil(t.d) IN DaysFromCivil(c.y, c.m, c.d) = t.d /\ c.d <= DaysIn(c.y, c.m) /\ c.m \in 1..12
TruncBelow == \A u \in Units : Le(Trunc(t, u), t) /\ Lt(t, Plus(Trunc(t, u), u, 1))
TruncIdem == \A u \in Units : Trunc(Trunc(t, u), u) = Trunc(t, u)
TruncMono == \A u \in Units : Le(t, v) => Le(Trunc(t, u), Trunc(v, u))
Nested == /\ Trunc(Trunc(t, "hour"), "day") = Trunc(t, "day") /\ Trunc(Trunc(t, "day"), "week") = Trunc(t, "week")
          /\ Trunc(Trunc(t, "month"), "year") = Trunc(t, "year")
Tiling == v.d - t.d <= 40 =>
            \A u \in Units \ {"hour"} : LET b == Buckets(t, v, u) IN
               /\ b # <<>> /\ b[1] = Trunc(t, u) /\ b[Len(b)] = Trunc(v, u)
               /\ \A i \in 1..(Len(b) - 1) : b[i + 1] = Plus(b[i], u, 1) /\ Lt(b[i], b[i + 1])
MonthBack == \A k \in {1, 2, 12, 13} : LET p == AddMonths(t, -k) IN Lt(p, t) /\ Civil(p.d).d <= Civil(t.d).d
=============================================================================
