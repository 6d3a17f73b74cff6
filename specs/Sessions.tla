------------------------------ MODULE Sessions ------------------------------
(* Live sessions of visitors, a set of <<project, visitor, time of the latest activity>>. *)
EXTENDS Naturals, Integers, FiniteSets
Of(s, p, u) == {x \in s : x[1] = p /\ x[2] = u}
IsNew(s, p, u) == Of(s, p, u) = {}
Active(s, p, u, t) == (s \ Of(s, p, u)) \cup {<<p, u, t>>}
Expired(s, p, cut) == {x \in s : x[1] = p /\ x[3] < cut}
Sweep(s, p, cut) == s \ Expired(s, p, cut)
Clear(s, p) == {x \in s : x[1] # p}
OneSession(s) == \A x, y \in s : x[1] = y[1] /\ x[2] = y[2] => x = y
=============================================================================
