--------------------------- MODULE MC_CustomEvents --------------------------
(* Design: if every accepted definition has no problem and spoils no other, then no stored         *)
(* definition contains itself, nests too deeply or repeats a custom event.                         *)
EXTENDS CustomEvents
CONSTANTS Ids, Max, Width
VARIABLES defs, used                              \* ids are never given out twice
Evs == {[id |-> 1, n |-> "e"]}
Members == {[t |-> "r", id |-> 1, n |-> ""]} \cup {[t |-> "c", id |-> i, n |-> ""] : i \in Ids}
Lists == UNION {[1..w -> Members] : w \in 1..Width}
Init == defs = {} /\ used = {}
Create == \E i \in Ids \ used, r \in Lists : used' = used \cup {i} /\ Problems(Evs, defs, r, 0, Max) = {} /\ defs' = defs \cup {[id |-> i, name |-> i, refs |-> r]}
Update == UNCHANGED used /\ \E c \in defs, r \in Lists : Problems(Evs, defs, r, c.id, Max) = {} /\ Spoiled(Evs, defs, c.id, r, Max) = {} /\ defs' = Redefine(defs, c.id, r)
Delete == UNCHANGED used /\ \E c \in defs : defs' = defs \ {c}
Next == Create \/ Update \/ Delete
Spec == Init /\ [][Next]_<<defs, used>>
Laws == Acyclic(defs, Max) /\ \A c \in defs : Problems(Evs, defs, c.refs, c.id, Max) \cap {"bad", "exists"} = {}
=============================================================================
