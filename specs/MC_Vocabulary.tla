--------------------------- MODULE MC_Vocabulary ----------------------------
(* A request's comparison travelling to the engine and back: meaning over sample values is kept. *)
EXTENDS Vocabulary
VARIABLES op, at, cur
vars == <<op, at, cur>>
Vals == 0..3
MeansUser(o, a, b) == CASE o = "Eq" -> a = b [] o = "Neq" -> a # b [] o = "Gt" -> a > b [] o = "Gte" -> a >= b [] o = "Lt" -> a < b [] o = "Lte" -> a <= b [] OTHER -> FALSE
MeansEngine(o, a, b) == CASE o = "Eq" -> a = b [] o = "NotEq" -> a # b [] o = "Gt" -> a > b [] o = "GtEq" -> a >= b [] o = "Lt" -> a < b [] o = "LtEq" -> a <= b [] OTHER -> FALSE
Init == op \in UserOps /\ at = "request" /\ cur = op
Lower == at = "request" /\ EngineOp(cur) # Refused /\ at' = "engine" /\ cur' = EngineOp(cur) /\ UNCHANGED op
Refuse == at = "request" /\ EngineOp(cur) = Refused /\ at' = "refused" /\ UNCHANGED <<op, cur>>
Raise == at = "engine" /\ at' = "operator" /\ cur' = FromEngineOp(cur) /\ UNCHANGED op
LowerAgain == at = "operator" /\ at' = "engine" /\ UNCHANGED <<op, cur>>
Next == Lower \/ Refuse \/ Raise \/ LowerAgain
Spec == Init /\ [][Next]_vars
SameMeaning == at \in {"engine", "operator"} => cur # Refused /\ cur = Compare[op] /\ \A a, b \in Vals : MeansUser(op, a, b) = MeansEngine(cur, a, b)
Distinct == \A a, b \in UserOps : EngineOp(a) = EngineOp(b) /\ EngineOp(a) # Refused => a = b
NoValueRefused == op \in NoValue => at # "engine"
=============================================================================
