----------------------------- MODULE Vocabulary -----------------------------
(* The query vocabulary and its counterparts in the engine (property C07).                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Refused == "refused"
UserOps == {"Eq", "Neq", "Gt", "Gte", "Lt", "Lte", "True", "False", "Exists", "Empty", "Like", "NotLike", "Regex", "NotRegex"}
Compare == [Eq |-> "Eq", Neq |-> "NotEq", Gt |-> "Gt", Gte |-> "GtEq", Lt |-> "Lt", Lte |-> "LtEq", Regex |-> "RegexMatch", NotRegex |-> "RegexNotMatch"]
EngineOp(o) == IF o \in DOMAIN Compare THEN Compare[o] ELSE Refused
Operators == {Compare[o] : o \in DOMAIN Compare}
FromEngineOp(x) == IF x \in Operators THEN x ELSE Refused
NoValue == {"True", "False", "Exists", "Empty"}
Aggs == {"Count", "Sum", "Min", "Max", "Avg"}
AggText == [Count |-> "COUNT", Sum |-> "SUM", Min |-> "MIN", Max |-> "MAX", Avg |-> "AVG"]
EngineAgg(f) == IF f = "Sum" THEN {Refused, "Sum"} ELSE {f}          \* the engine has no sum in this position
QueryAggs == {"Min", "Max", "Sum", "Avg", "Median", "DistinctCount", "Percentile25th", "Percentile75th", "Percentile90th", "Percentile99th"}
SimpleAgg(q) == IF q \in {"Min", "Max", "Sum", "Avg"} THEN q ELSE Refused
PartCol == "partitioned_count"
InitialName(q) == CASE q = "CountEvents" -> "count" [] q \in {"CountUniqueGroups", "DailyActiveGroups", "CountPerGroup"} -> PartCol
                    [] q = "AggregatePropertyPerGroup" -> "partitioned_agg" [] q = "AggregateProperty" -> "agg" [] OTHER -> Refused
Title(f) == f                                    \* CountPerGroup is titled by its aggregate
QueryName(q, f, g, prop) ==
  CASE q = "CountEvents" -> "Count" [] q = "CountUniqueGroups" -> "Count unique" [] q = "DailyActiveGroups" -> "Daily active" [] q = "WeeklyActiveGroups" -> "Weekly active"
    [] q = "MonthlyActiveGroups" -> "Monthly active" [] q = "CountPerGroup" -> Title(f) [] q = "AggregateProperty" -> AggText[f] \o "(" \o prop \o ")"
    [] q = "AggregatePropertyPerGroup" -> AggText[f] \o "(" \o AggText[g] \o "(" \o prop \o "))" [] OTHER -> "a+b"
=============================================================================
