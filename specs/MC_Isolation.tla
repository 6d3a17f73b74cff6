----------------------------- MODULE MC_Isolation ---------------------------
(* Design: when every stored key starts with its project, a store holding several projects shows   *)
(* through each what a store of its own would show (keys are tuples of components, not texts).     *)
EXTENDS Isolation, FiniteSets
CONSTANTS Projects, Keys, Vals
VARIABLES joint, solo
Init == joint = {} /\ solo = [p \in Projects |-> {}]
View(p) == {<<x[2], x[3]>> : x \in {x \in joint : x[1] = p}}
Put(p, k, v) == /\ joint' = {x \in joint : ~(x[1] = p /\ x[2] = k)} \cup {<<p, k, v>>}
                /\ solo' = [solo EXCEPT ![p] = {x \in @ : x[1] # k} \cup {<<k, v>>}]
Del(p, k) == /\ joint' = {x \in joint : ~(x[1] = p /\ x[2] = k)} /\ solo' = [solo EXCEPT ![p] = {x \in @ : x[1] # k}]
Next == \E p \in Projects, k \in Keys : Del(p, k) \/ \E v \in Vals : Put(p, k, v)
Spec == Init /\ [][Next]_<<joint, solo>>
Same == \A p \in Projects : View(p) = solo[p]
Others == [][\E p \in Projects : [q \in Projects |-> View(q)]' = After([q \in Projects |-> View(q)], p, View(p)')]_<<joint, solo>>
=============================================================================
