---------------------------- MODULE MC_Catalogue ----------------------------
(* Design: creation, renaming and deletion as the pessimistic transactions the implementation uses. *)
(* A transaction locks each key it reads for update (name keys, the sequence, the object) until it  *)
(* commits or fails; writes become visible at commit. A lock held by another transaction makes the  *)
(* call fail at once (no deadlocks). Commits may fail. The visible catalogue keeps the laws of      *)
(* Catalogue in every interleaving, and every commit is a step of the atomic specification.         *)
EXTENDS Catalogue, TLC
CONSTANTS Procs, Texts, MaxId, MaxCalls
VARIABLES db, seq, locks, pc, calls
vars == <<db, seq, locks, pc, calls>>
Idle == [at |-> "idle"]
Init == db = CInit /\ seq = 0 /\ locks = [k \in {} |-> 0] /\ pc = [x \in Procs |-> Idle] /\ calls = 0
Take(p, k) == IF k \in DOMAIN locks THEN locks[k] = p ELSE TRUE
Grab(p, k) == locks' = [x \in DOMAIN locks \cup {k} |-> IF x = k THEN p ELSE locks[x]]
Free(p) == locks' = [x \in {x \in DOMAIN locks : locks[x] # p} |-> locks[x]]
End(p) == Free(p) /\ pc' = [pc EXCEPT ![p] = Idle]
NameKey(n) == <<"name", n>>
ObjKey(i) == <<"obj", ToString(i)>>
SeqKey == <<"seq", "">>
Begin(p) == pc[p] = Idle /\ calls < MaxCalls /\ calls' = calls + 1 /\ UNCHANGED <<db, seq, locks>> /\
  \E n \in Texts : \/ pc' = [pc EXCEPT ![p] = [at |-> "name", op |-> "create", n |-> n, id |-> 0, o |-> {}]]
                   \/ \E i \in 1..MaxId : pc' = [pc EXCEPT ![p] = [at |-> "obj", op |-> "rename", n |-> n, id |-> i, o |-> {}]]
                   \/ \E i \in 1..MaxId : pc' = [pc EXCEPT ![p] = [at |-> "obj", op |-> "delete", n |-> "", id |-> i, o |-> {}]]
Fail(p) == pc[p] # Idle /\ End(p) /\ UNCHANGED <<db, seq, calls>>       \* lock conflict, or the commit fails
LockObj(p) == /\ pc[p].at = "obj" /\ Take(p, ObjKey(pc[p].id)) /\ Grab(p, ObjKey(pc[p].id))
              /\ pc' = [pc EXCEPT ![p].at = IF pc[p].op = "rename" THEN "name" ELSE "commit", ![p].o = {o \in db.objs : o.id = pc[p].id}]
              /\ UNCHANGED <<db, seq, calls>>
LockName(p) == /\ pc[p].at = "name" /\ Take(p, NameKey(pc[p].n)) /\ Grab(p, NameKey(pc[p].n))
               /\ LET taken == \E o \in db.objs : o.name = pc[p].n /\ o \notin pc[p].o IN
                  pc' = [pc EXCEPT ![p].at = IF taken THEN "refuse" ELSE IF pc[p].op = "create" THEN "seq" ELSE "commit"]
               /\ UNCHANGED <<db, seq, calls>>
LockSeq(p) == /\ pc[p].at = "seq" /\ Take(p, SeqKey) /\ Grab(p, SeqKey) /\ seq < MaxId
              /\ pc' = [pc EXCEPT ![p].at = "commit", ![p].id = seq + 1] /\ UNCHANGED <<db, seq, calls>>
Obj(i, n) == [kind |-> "event", p |-> 1, id |-> i, name |-> n, dn |-> "", ps |-> {}, q |-> ""]
Commit(p) == /\ pc[p].at = "commit" /\ End(p) /\ UNCHANGED calls
             /\ CASE pc[p].op = "create" -> db' = New(db, Obj(pc[p].id, pc[p].n)) /\ seq' = pc[p].id
                  [] pc[p].op = "rename" -> UNCHANGED seq /\ db' = (IF pc[p].o = {} THEN db ELSE LET o == CHOOSE o \in pc[p].o : TRUE IN Swap(db, o, Renamed(o, TRUE, pc[p].n, FALSE, "", "")))
                  [] OTHER -> UNCHANGED seq /\ db' = (IF pc[p].o = {} THEN db ELSE Gone(db, CHOOSE o \in pc[p].o : TRUE))
Refuse(p) == pc[p].at = "refuse" /\ End(p) /\ UNCHANGED <<db, seq, calls>>
Next == \E p \in Procs : Begin(p) \/ Fail(p) \/ LockObj(p) \/ LockName(p) \/ LockSeq(p) \/ Commit(p) \/ Refuse(p)
Spec == Init /\ [][Next]_vars
Laws == UniqueNames(db) /\ UniqueIds(db) /\ Remembered(db)
(* atomic: every visible change is one creation, change or deletion allowed by the specification *)
Atomic == [][db' = db \/ \E n \in Texts, i \in 1..MaxId :
    \/ ~Clash(Live(db, "event", 1), "event", n, "") /\ Fresh(db, "event", 1, i) /\ db' = New(db, Obj(i, n))
    \/ \E o \in db.objs : o.id = i /\ ~Clash(db.objs \ {o}, "event", n, "") /\ db' = Swap(db, o, Renamed(o, TRUE, n, FALSE, "", ""))
    \/ \E o \in db.objs : o.id = i /\ db' = Gone(db, o)]_vars
=============================================================================
