----------------------------- MODULE StateTrace -----------------------------
(* Validation of recorded histories of a stateful component. S is the set of states the           *)
(* component can be in after the events so far; an event that no state explains is reported and    *)
(* validation resumes at the next "reset". Concurrent calls (k = "par") must be explained by some  *)
(* order of their effects. A call whose commit was made to fail, or that lost a lock to a          *)
(* concurrent one, may report a storage error ("store"), and then has no effect.                   *)
EXTENDS TraceLib, SequencesExt
VARIABLE S
One(Step(_, _, _), s, o, par) == Step(s, o, par) \cup (IF Has(o, "r") /\ o.r.e = "store" /\ (par \/ o.fail) THEN {s} ELSE {})
All(Step(_, _, _), T, o, par) == UNION {One(Step, s, o, par) : s \in T}
Par(Step(_, _, _), T, ops) == UNION {FoldLeft(LAMBDA acc, i : All(Step, acc, ops[i], TRUE), T, p) : p \in Permutations(1..Len(ops))}
Resume(i) == LET later == {j \in i + 1..Len(Trace) : Trace[j].k = "reset"} IN IF later = {} THEN Len(Trace) + 1 ELSE CHOOSE j \in later : \A x \in later : j <= x
(* a known deviation, reported at the line being validated *)
Deviates(key) == Known(key, TLCGet(1))
SInit == LInit /\ S = {}
SNext(Start(_), Step(_, _, _)) ==
  /\ l <= Len(Trace) /\ TLCSet(1, l)
  /\ LET e == Trace[l] IN
     IF e.k = "reset" THEN S' = {Start(e)} /\ l' = l + 1
     ELSE LET T == IF e.k = "par" THEN Par(Step, S, e.ops) ELSE All(Step, S, e, FALSE) IN
          IF T # {} THEN S' = T /\ l' = l + 1 ELSE Bad(l, e.k) /\ S' = {} /\ l' = Resume(l)
=============================================================================
