----------------------------- MODULE Aggregates -----------------------------
(* The aggregation operators on their own (Q03, Q04): rows of users in segments, grouped, measured. *)
(* They are given the same meaning as a report's measures (Analytics!Measure) and segments           *)
(* (Segments!Segment): a row counts for a segment when its user belongs to it, for a measure when    *)
(* it passes the measure's filter.                                                                   *)
EXTENDS Analytics
Seg == INSTANCE Segments
AsEvents(R) == [i \in DOMAIN R |-> [v |-> [price |-> R[i].v], g |-> R[i].u]]
Chosen(R, segs, s, m) == {i \in DOMAIN R : (m.all \/ R[i].m) /\ (Len(segs) = 0 \/ (R[i].u # <<>> /\ R[i].u[1] \in Seg!Segment(R, segs[s])))}
Key(r, groups) == [g |-> IF \E i \in 1..Len(groups) : groups[i] = "g" THEN r.g ELSE "~", h |-> IF \E i \in 1..Len(groups) : groups[i] = "h" THEN r.h ELSE "~"]
CellOk(x, c, m) == IF c = <<>> THEN x = <<>> \/ (x = <<0>> /\ m.k \in {"countEvents", "countUniqueGroups", "countPerGroup"})
                   ELSE x # <<>> /\ Abs((x[1] * c[2]) - (c[1] * 100)) <= 6 * c[2]
(* one row for every group seen in a segment; a group without anything to measure may be left out   *)
Answer(R, segs, ms, groups, out) ==
  LET D == AsEvents(R)
      S == 1..(IF Len(segs) = 0 THEN 1 ELSE Len(segs))
      keys == {Key(R[i], groups) : i \in DOMAIN R}
      chosen == [s \in S |-> [j \in DOMAIN ms |-> Chosen(R, segs, s, ms[j])]]
      want == [s \in S |-> [k \in keys |-> [j \in DOMAIN ms |-> Measure(D, ms[j], 1, {i \in chosen[s][j] : Key(R[i], groups) = k})]]]
      K(o) == [g |-> o.g, h |-> o.h]
  IN /\ \A i \in DOMAIN out : out[i].s \in S /\ K(out[i]) \in keys /\ \A j \in DOMAIN ms : CellOk(out[i].cells[j], want[out[i].s][K(out[i])][j], ms[j])
     /\ \A s \in S, k \in keys : LET n == Cardinality({i \in DOMAIN out : out[i].s = s /\ K(out[i]) = k})
                                 IN n = 1 \/ (n = 0 /\ \A j \in DOMAIN ms : want[s][k][j] = <<>>)
=============================================================================
