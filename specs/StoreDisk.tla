----------------------------- MODULE StoreDisk ------------------------------
(* How a table of the store keeps its rows through crashes: rows go to memory and to a log; a flush *)
(* writes a part, then the metadata that names it, then drops the log; compaction merges parts into *)
(* the next level, writes the metadata and drops the old parts; a collector drops what the metadata *)
(* does not name. Every step below is one file operation, and the process can end between any two.  *)
(* Rows are distinct numbers here. A file is [lv, id, rows]; rows = Torn marks a half-written one.   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Rows, L0, MaxCrash
Torn == {0}
VARIABLES mem,       \* rows in memory
          md,        \* metadata in memory: [log, parts]
          dmd,       \* metadata on disk
          logs,      \* on disk: set of [id, rows]
          files,     \* on disk: set of parts
          open,      \* files somebody uses, not to be removed by the collector
          acked,     \* rows whose insert returned
          maybe,     \* a row whose insert was cut short
          fl, co,    \* where flush and compaction are
          crashes
vars == <<mem, md, dmd, logs, files, open, acked, maybe, fl, co, crashes>>
Idle == [at |-> "idle"]
Max(S) == CHOOSE x \in S \cup {0} : \A y \in S : y <= x
Part(lv, id, rows) == [lv |-> lv, id |-> id, rows |-> rows]
Name(p) == <<p.lv, p.id>>
Names(S) == {Name(p) : p \in S}
Put(S, p) == {q \in S : Name(q) # Name(p)} \cup {p}
NextId(m, lv) == m.next[lv]
Log(id) == {g \in logs : g.id = id}
Init == /\ mem = {} /\ md = [log |-> 0, parts |-> {}, next |-> [lv \in 0..1 |-> 1]] /\ dmd = md
        /\ logs = {[id |-> 0, rows |-> {}]} /\ files = {} /\ open = {} /\ acked = {} /\ maybe = {} /\ fl = Idle /\ co = Idle /\ crashes = 0
(* the flush holds the table's locks: no insert, and no commit of a compaction, until it is over *)
Insert(r) == /\ fl.at = "idle" /\ r \notin acked \cup maybe
             /\ \E g \in Log(md.log) : logs' = (logs \ {g}) \cup {[g EXCEPT !.rows = @ \cup {r}]}
             /\ mem' = mem \cup {r} /\ acked' = acked \cup {r}
             /\ UNCHANGED <<md, dmd, files, open, maybe, fl, co, crashes>>
FlushWrite == /\ fl.at = "idle" /\ mem # {}
              /\ LET p == Part(0, NextId(md, 0), mem) IN
                 \/ files' = Put(files, p) /\ fl' = [at |-> "written", p |-> p] /\ open' = open \cup {Name(p)}
                 \/ files' = Put(files, [p EXCEPT !.rows = Torn]) /\ fl' = [at |-> "tearing", p |-> p] /\ open' = open \cup {Name(p)}
              /\ UNCHANGED <<mem, md, dmd, logs, acked, maybe, co, crashes>>
FlushOn == /\ fl.at = "tearing" /\ files' = Put(files, fl.p) /\ fl' = [fl EXCEPT !.at = "written"] /\ UNCHANGED <<mem, md, dmd, logs, open, acked, maybe, co, crashes>>
FlushName == /\ fl.at = "written"
             /\ LET m == [md EXCEPT !.log = @ + 1, !.parts = @ \cup {fl.p}, !.next[0] = @ + 1] IN md' = m /\ dmd' = m
             /\ mem' = {} /\ fl' = [at |-> "named"] /\ open' = open \ {Name(fl.p)}
             /\ UNCHANGED <<logs, files, acked, maybe, co, crashes>>
FlushDrop == /\ fl.at = "named" /\ logs' = {g \in logs : g.id # md.log - 1} /\ fl' = [at |-> "dropped"] /\ UNCHANGED <<mem, md, dmd, files, open, acked, maybe, co, crashes>>
FlushLog == /\ fl.at = "dropped" /\ logs' = {g \in logs : g.id # md.log} \cup {[id |-> md.log, rows |-> {}]} /\ fl' = Idle /\ UNCHANGED <<mem, md, dmd, files, open, acked, maybe, co, crashes>>
(* compaction works on the parts it saw at its start *)
CompactWrite == /\ co.at = "idle"
                /\ LET from == md.parts  top == {p \in from : p.lv = 0}  low == {p \in from : p.lv = 1} IN
                   /\ Cardinality(top) > L0
                   /\ LET n == Part(1, NextId(md, 1), UNION {p.rows : p \in top \cup low}) IN
                      /\ \/ files' = Put(files, n) /\ co' = [at |-> "written", n |-> n, old |-> top \cup low]
                         \/ files' = Put(files, [n EXCEPT !.rows = Torn]) /\ co' = [at |-> "tearing", n |-> n, old |-> top \cup low]
                      /\ open' = open \cup {Name(n)}
                /\ UNCHANGED <<mem, md, dmd, logs, acked, maybe, fl, crashes>>
CompactOn == /\ co.at = "tearing" /\ files' = Put(files, co.n) /\ co' = [co EXCEPT !.at = "written"] /\ UNCHANGED <<mem, md, dmd, logs, open, acked, maybe, fl, crashes>>
CompactName == /\ co.at = "written" /\ fl.at = "idle"
               /\ LET m == [md EXCEPT !.parts = (@ \ co.old) \cup {co.n}, !.next[1] = @ + 1] IN md' = m /\ dmd' = m
               /\ co' = [at |-> "named", old |-> co.old] /\ open' = open \ {Name(co.n)}
               /\ UNCHANGED <<mem, logs, files, acked, maybe, fl, crashes>>
CompactDrop == /\ co.at = "named"
               /\ \E p \in co.old : files' = {q \in files : Name(q) # Name(p)} /\ co' = IF co.old = {p} THEN Idle ELSE [co EXCEPT !.old = @ \ {p}]
               /\ UNCHANGED <<mem, md, dmd, logs, open, acked, maybe, fl, crashes>>
(* the collector looks at a table between flushes *)
Collect == /\ fl.at = "idle"
           /\ \/ \E p \in files : Name(p) \notin Names(md.parts) \cup open /\ files' = files \ {p} /\ logs' = logs
              \/ \E g \in logs : g.id < md.log /\ logs' = logs \ {g} /\ files' = files
           /\ UNCHANGED <<mem, md, dmd, open, acked, maybe, fl, co, crashes>>
Recovered(lg) == IF lg = {} THEN {} ELSE UNION {g.rows : g \in lg}
(* the process ends, perhaps while a row is being logged, and the store is opened again *)
Crash == /\ crashes < MaxCrash /\ crashes' = crashes + 1
         /\ \E r \in {{}} \cup {{x} : x \in IF fl.at = "idle" THEN Rows \ (acked \cup maybe) ELSE {}} :
              LET lg == Recovered(Log(dmd.log)) \cup r IN
              /\ mem' = lg /\ md' = dmd /\ dmd' = dmd
              /\ logs' = {g \in logs : g.id # dmd.log} \cup {[id |-> dmd.log, rows |-> lg]}
              /\ maybe' = maybe \cup r
         /\ open' = {} /\ fl' = Idle /\ co' = Idle /\ UNCHANGED <<files, acked>>
Next == (\E r \in Rows : Insert(r)) \/ FlushWrite \/ FlushOn \/ FlushName \/ FlushDrop \/ FlushLog
        \/ CompactWrite \/ CompactOn \/ CompactName \/ CompactDrop \/ Collect \/ Crash
Spec == Init /\ [][Next]_vars
(* ---- what must hold *)
InParts(m) == UNION {p.rows : p \in m.parts}
(* every accepted row is in exactly one place, and nothing else is *)
Once(m, logged) == /\ \A p, q \in m.parts : p # q => p.rows \cap q.rows = {}
                   /\ InParts(m) \cap logged = {}
Visible == /\ Once(md, mem) /\ acked \subseteq InParts(md) \cup mem /\ InParts(md) \cup mem \subseteq acked \cup maybe
(* and would be after a crash right now *)
Durable == LET lg == Recovered(Log(dmd.log)) IN Once(dmd, lg) /\ acked \subseteq InParts(dmd) \cup lg /\ InParts(dmd) \cup lg \subseteq acked \cup maybe
(* what the metadata names is there and whole *)
Backed == dmd.parts \subseteq files /\ md.parts \subseteq files
=============================================================================
