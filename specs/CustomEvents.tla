---------------------------- MODULE CustomEvents ----------------------------
(* Custom events refer to events and to other custom events, and are expanded when queried. *)
EXTENDS Naturals, Sequences, FiniteSets
Customs(defs, id) == {c \in defs : c.id = id}
RefSet(refs) == {refs[i] : i \in 1..Len(refs)}
RECURSIVE Flatten(_, _, _, _)
(* ids of all custom events in the expansion of refs, with repetitions, to at most `max` levels *)
Flatten(defs, refs, level, max) ==
  IF level > max \/ refs = <<>> THEN <<>>
  ELSE (IF Head(refs).t = "c" THEN <<Head(refs).id>> \o (IF Customs(defs, Head(refs).id) = {} THEN <<>> ELSE Flatten(defs, (CHOOSE c \in Customs(defs, Head(refs).id) : TRUE).refs, level + 1, max)) ELSE <<>>)
       \o Flatten(defs, Tail(refs), level, max)
RECURSIVE Faults(_, _, _, _, _)
(* unknown members and nesting deeper than max *)
Faults(evs, defs, refs, level, max) ==
  IF level > max THEN {"bad"}
  ELSE UNION {CASE r.t = "r" -> IF \E e \in evs : e.id = r.id THEN {} ELSE {"notfound"}
                [] r.t = "n" -> IF \E e \in evs : e.n = r.n THEN {} ELSE {"notfound"}
                [] OTHER -> IF Customs(defs, r.id) = {} THEN {"notfound"} ELSE UNION {Faults(evs, defs, c.refs, level + 1, max) : c \in Customs(defs, r.id)} : r \in RefSet(refs)}
Repeats(q) == \E i, j \in 1..Len(q) : i < j /\ q[i] = q[j]
(* Why a definition has to be refused; self = 0 for a new one. *)
Problems(evs, defs, refs, self, max) ==
  (IF refs = <<>> THEN {"bad"} ELSE {}) \cup Faults(evs, defs, refs, 0, max)
  \cup (LET q == Flatten(defs, refs, 0, max) IN IF Repeats(q) \/ (self # 0 /\ \E i \in 1..Len(q) : q[i] = self) THEN {"exists"} ELSE {})
Redefine(defs, id, refs) == {IF c.id = id THEN [c EXCEPT !.refs = refs] ELSE c : c \in defs}
Contains(defs, c, id, max) == LET q == Flatten(defs, c.refs, 0, max + 1) IN \E i \in 1..Len(q) : q[i] = id
(* definitions that contain id and become too deep or ambiguous when it is given other members *)
Spoiled(evs, defs, id, refs, max) ==
  LET now == Redefine(defs, id, refs) IN
  {c \in now : c.id # id /\ Contains(now, c, id, max) /\ Problems(evs, now, c.refs, c.id, max) \cap {"bad", "exists"} # {} /\ Problems(evs, defs, c.refs, c.id, max) \cap {"bad", "exists"} = {}}
Acyclic(defs, max) == \A c \in defs : ~Contains(defs, c, c.id, Cardinality(defs) + max)
=============================================================================
