------------------------------ MODULE MC_Groups -----------------------------
EXTENDS Groups
CONSTANTS Us, As, N, Steps
Vs == {{}, {<<1, 5>>}, {<<1, 6>>, <<2, 7>>}}
VARIABLES s, n
At == <<1, 0>>
Init == s = GInit /\ n = 0
Next == /\ n < Steps /\ n' = n + 1
        /\ \/ \E a \in As, i \in 1..N : s' \in Visit(s, At, a, i)
           \/ \E a \in As, u \in Us, v \in Vs, i \in 1..N : s' \in Identify(s, At, a, u, v, i)
           \/ \E u \in Us, v \in Vs, i \in 1..N : s' \in Arrive(s, At, u, v, i) \cup Assign(s, At, u, v, i)
           \/ \E k \in 1..N : s' \in Number(s, At, k)
Spec == Init /\ [][Next]_<<s, n>>
(* identity is for life, and versions only go up *)
ForLife == [][/\ \A x \in s.users : \E y \in s'.users : x.at = y.at /\ x.u = y.u /\ x.id = y.id
              /\ s.anons \subseteq s'.anons
              /\ \A v \in s.vers : \E w \in s'.vers : w.at = v.at /\ w.n >= v.n
              /\ \A x \in s.users : \A v \in x.vals : \E y \in User(s', x.at, x.u) : \E w \in y.vals : w[1] = v[1]]_<<s, n>>
Laws == OneIdentity(s)
=============================================================================
