----------------------------- MODULE MC_Sessions ----------------------------
(* Design: the sweep collects sessions without a lock and re-reads each under a lock before ending *)
(* it, while activity goes on. Only sessions that are expired at that moment end.                  *)
EXTENDS Sessions
CONSTANTS Visitors, Times, Steps
VARIABLES s, todo, cut, n, last
vars == <<s, todo, cut, n, last>>
Init == s = {} /\ todo = {} /\ cut = 0 /\ n = 0 /\ last = [v \in Visitors |-> 0]
Act == \E v \in Visitors, t \in Times : s' = Active(s, 1, v, t) /\ last' = [last EXCEPT ![v] = t] /\ UNCHANGED <<todo, cut>>
Start == todo = {} /\ \E c \in Times : cut' = c /\ todo' = {x[2] : x \in s} /\ UNCHANGED <<s, last>>
Examine == \E v \in todo : /\ todo' = todo \ {v} /\ UNCHANGED <<cut, last>>
                           /\ s' = s \ {x \in Expired(s, 1, cut) : x[2] = v}
Next == n < Steps /\ n' = n + 1 /\ (Act \/ Start \/ Examine)
Spec == Init /\ [][Next]_vars
Laws == OneSession(s) /\ \A x \in s : x[3] = last[x[2]]
OnlyExpired == [][\A x \in s : (\A y \in s' : y[2] # x[2]) => x[3] < cut']_vars
=============================================================================
