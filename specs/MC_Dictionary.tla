---------------------------- MODULE MC_Dictionary ---------------------------
(* Design: encoding as a transaction that locks the text's entry, looks it up, and only if absent  *)
(* locks the column's sequence, takes the next key and writes both directions. Explicit keys are    *)
(* issued by the property code from the same sequence, so all keys come from it.                    *)
EXTENDS Dictionary, Sequences, TLC
CONSTANTS Procs, Cols, Texts, MaxCalls
VARIABLES d, seq, locks, pc, calls
vars == <<d, seq, locks, pc, calls>>
Idle == [at |-> "idle"]
Init == d = {} /\ seq = [c \in Cols |-> 0] /\ locks = {} /\ pc = [p \in Procs |-> Idle] /\ calls = 0
Free(k) == \A x \in locks : x[2] # k
Drop(p) == {x \in locks : x[1] # p}
Begin(p) == pc[p] = Idle /\ calls < MaxCalls /\ calls' = calls + 1 /\ UNCHANGED <<d, seq, locks>>
            /\ \E c \in Cols, t \in Texts : pc' = [pc EXCEPT ![p] = [at |-> "text", c |-> c, t |-> t, key |-> 0]]
Fail(p) == pc[p] # Idle /\ pc' = [pc EXCEPT ![p] = Idle] /\ locks' = Drop(p) /\ UNCHANGED <<d, seq, calls>>
Text(p) == /\ pc[p].at = "text" /\ Free(<<pc[p].c, pc[p].t>>) /\ UNCHANGED <<d, seq, calls>>
           /\ IF Issued(d, pc[p].c, pc[p].t) # {} THEN pc' = [pc EXCEPT ![p] = Idle] /\ UNCHANGED locks
              ELSE pc' = [pc EXCEPT ![p].at = "seq"] /\ locks' = locks \cup {<<p, <<pc[p].c, pc[p].t>>>>}
Seq1(p) == /\ pc[p].at = "seq" /\ Free(<<pc[p].c, "">>) /\ UNCHANGED <<d, seq, calls>>
           /\ pc' = [pc EXCEPT ![p].at = "commit", ![p].key = seq[pc[p].c] + 1] /\ locks' = locks \cup {<<p, <<pc[p].c, "">>>>}
Commit(p) == /\ pc[p].at = "commit" /\ UNCHANGED calls /\ locks' = Drop(p) /\ pc' = [pc EXCEPT ![p] = Idle]
             /\ seq' = [seq EXCEPT ![pc[p].c] = pc[p].key] /\ d' = d \cup {<<pc[p].c, pc[p].t, pc[p].key>>}
Next == \E p \in Procs : Begin(p) \/ Fail(p) \/ Text(p) \/ Seq1(p) \/ Commit(p)
Spec == Init /\ [][Next]_vars
Laws == IsBijection(d) /\ \A x \in d : x[3] <= seq[x[1]]
Atomic == [][d' = d \/ \E c \in Cols, t \in Texts, k \in 1..MaxCalls : d' \in Encode(d, c, t, k)]_vars
=============================================================================
