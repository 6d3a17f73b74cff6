------------------------------ MODULE Trace_C04 -----------------------------
EXTENDS TraceLib, DataTypes
Json(x) == IF x \in Scalars THEN "\"" \o x \o "\"" ELSE "{\"list\":\"" \o Elem(x) \o "\"}"
Res(e) == IF e.st = "ok" THEN e.r ELSE Rejected
Nested == "list:list:int8"
Consts == [decimal_builder |-> "Decimal128(28, 16)", decimal_precision |-> "28", decimal_scale |-> "16", decimal_multiplier |-> "10000000000000000", time_unit |-> "Millisecond", groups |-> "5"]
Ok(e) ==
  CASE e.k = "short" -> Res(e) = IF e.x = Nested THEN Rejected ELSE Short(e.x)
    [] e.k = "to_engine" -> Res(e) = IF e.x = Nested THEN Rejected ELSE Engine(e.x)
    [] e.k = "to_store" -> Res(e) = IF e.x = Nested THEN Rejected ELSE Store(e.x)
    [] e.k \in {"engine_back", "store_back"} -> Res(e) = IF e.x = Nested THEN Rejected ELSE Elem(e.x)
    [] e.k = "json" -> e.x = Nested \/ Res(e) = Json(e.x)
    [] e.k = "json_back" -> e.x = Nested \/ Res(e) = e.x
    [] e.k = "engine_in" -> Res(e) \in BackAllowed(Engine0, e.x)
    [] e.k = "engine_in_list" -> Res(e) \in BackAllowed(Engine0, e.x)
    [] e.k = "store_in" -> Res(e) \in BackAllowed(Store0, e.x)
    [] e.k = "store_in_list" -> Res(e) \in BackAllowed(Store0, e.x)
    [] e.k = "const" -> Res(e) = Consts[e.x]
    [] e.k = "group_col" -> Res(e) = GroupCol(e.x)
    [] OTHER -> FALSE
TSpec == LInit /\ [][More /\ Judge(Ok(Trace[l]))]_l
(* the whole domain was exercised *)
Covers == \A k \in {"short", "to_engine", "to_store", "engine_back", "store_back", "json", "json_back"}, x \in Types : \E i \in 1..Len(Trace) : Trace[i].k = k /\ Trace[i].x = x
Done == Complete /\ Covers
=============================================================================
