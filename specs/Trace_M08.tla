----------------------------- MODULE Trace_M08 ------------------------------
(* Every call is made in a provider holding four projects, and again in one holding only its       *)
(* project; the outcome and the project's view have to be the same, the other views unchanged.     *)
EXTENDS StateTrace, Isolation
Views(e) == [q \in {e.views[i][1] : i \in 1..Len(e.views)} |-> LET i == CHOOSE i \in 1..Len(e.views) : e.views[i][1] = q IN e.views[i][2]]
Start(e) == Views(e)
Step(s, e, par) ==
  IF e.k = "start" THEN {Views(e)}
  ELSE IF e.joint = e.solo /\ Views(e) = After(s, e.p, e.alone) THEN {Views(e)} ELSE {}
TSpec == SInit /\ [][SNext(Start, Step)]_<<l, S>>
=============================================================================
