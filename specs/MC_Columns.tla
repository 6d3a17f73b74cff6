------------------------------ MODULE MC_Columns ----------------------------
(* Design: a property's column is a type prefix and the next number of its project and prefix, so  *)
(* no two properties of a project share one, deleted ones included; system properties are named.   *)
EXTENDS Columns
CONSTANTS Projects, Names, Prefixes, Steps
VARIABLES props, given, seq, n
vars == <<props, given, seq, n>>
Init == props = {} /\ given = {} /\ seq = [x \in Projects \X Prefixes |-> 0] /\ n = 0
Prop(p, g, name, col, sys) == [p |-> p, g |-> g, name |-> name, col |-> col, sys |-> sys]
Make == \E p \in Projects, g \in {9, 0}, nm \in Names, f \in Prefixes :
   /\ \A x \in props : ~(x.p = p /\ x.g = g /\ x.name = nm)
   /\ LET x == Prop(p, g, nm, <<f, seq[<<p, f>>]>>, FALSE) IN
      /\ Free({c \in given : c.p = p}, FALSE, nm, x.col) /\ props' = props \cup {x} /\ given' = given \cup {x} /\ seq' = [seq EXCEPT ![<<p, f>>] = @ + 1]
System == \E p \in Projects, g \in {9, 0} : LET x == Prop(p, g, "sys", <<"sys", 0>>, TRUE) IN props' = props \cup {x} /\ given' = given \cup {x} /\ UNCHANGED seq
Delete == \E x \in props : props' = props \ {x} /\ UNCHANGED <<given, seq>>
Next == n < Steps /\ n' = n + 1 /\ (Make \/ System \/ Delete)
Spec == Init /\ [][Next]_vars
Laws == OwnColumn(props) /\ OwnColumn(given) /\ props \subseteq given
=============================================================================
