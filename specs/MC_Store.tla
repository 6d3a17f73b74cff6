------------------------------ MODULE MC_Store ------------------------------
(* Several users of one replacing table and its backups. *)
EXTENDS Store
CONSTANTS Keys, Vers, MaxRows
VARIABLES s, writes          \* writes: conditional writes that went through since the version of a key was last read
vars == <<s, writes>>
T0 == "t"
Tot == IF T0 \in DOMAIN s.tabs THEN Size(s.tabs[T0].rows) ELSE 0
Init == s = Create(Empty, T0, 2, TRUE) /\ writes = [k \in Keys |-> 0]
RowAt(k, v) == [k |-> <<k, v>>, v |-> {}]
Write == Tot < MaxRows /\ \E k \in Keys, v \in Vers : s' = Insert(s, T0, RowAt(k, v)) /\ writes' = writes
Read == \E k \in Keys : \E r \in Matching(s.tabs[T0], <<k>>) : s' = Mark(s, <<T0, <<k>>>>, r.k[2]) /\ writes' = [writes EXCEPT ![k] = 0]
Conditional == Tot < MaxRows /\ \E k \in Keys, v \in Vers : /\ MarksAt(s, <<T0, <<k>>>>) # {} /\ Accepts(s, T0, <<k, v>>)
               /\ s' = Replace(s, T0, RowAt(k, v)) /\ writes' = [writes EXCEPT ![k] = @ + 1]
Save == s.baks = Empty.baks /\ s' = Backup(s, 0) /\ writes' = writes
Load == 0 \in DOMAIN s.baks /\ s' = Restore(s, 0) /\ writes' = [k \in Keys |-> 0]
Reopen == s' = Restart(s) /\ writes' = [k \in Keys |-> 0]
Next == Write \/ Read \/ Conditional \/ Save \/ Load \/ Reopen
Spec == Init /\ [][Next]_vars
Laws == KeysFit(s) /\ MarksFresh(s) /\ \A k \in Keys : writes[k] <= 1
(* a conditional write is refused once somebody else wrote *)
Lost == [][\A k \in Keys : writes'[k] > writes[k] => \E m \in MarksAt(s, <<T0, <<k>>>>) : \A r \in DOMAIN s.tabs[T0].rows : r.k[1] = k => r.k[2] <= m[2]]_vars
=============================================================================
