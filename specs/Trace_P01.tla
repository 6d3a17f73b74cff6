------------------------------ MODULE Trace_P01 -----------------------------
(* Calls of every operation by all kinds of callers. Organization 1 has projects 1 and 2,           *)
(* organization 2 has project 3; the caller's token is for organization torg. Target 9 is missing.  *)
EXTENDS TraceLib, Access
OrgOf(p) == CASE p \in {1, 2} -> 1 [] p = 3 -> 2 [] OTHER -> 0
OrgRole(e, o) == IF o \in 1..2 THEN e.orgs[o] ELSE "none"
PrjRole(e, p) == IF p \in 1..3 THEN e.prjs[p] ELSE "none"
Permitted(e) ==
  IF ServerOp(e.op) # "-" THEN OnServer(e.srv, ServerOp(e.op))
  ELSE IF OrgOp(e.op) # "-" THEN OnOrg(e.srv, OrgRole(e, IF e.op \in {"prj_create", "prj_list"} THEN e.torg ELSE e.t), OrgOp(e.op))
  ELSE OnProject(e.srv, IF OrgOf(e.t) = e.torg THEN OrgRole(e, e.torg) ELSE "none", PrjRole(e, e.t), ProjectOp(e.op))
(* the owners and admins of the token's organization are let through to any project *)
Foreign(e) == ProjectOp(e.op) # "-" /\ OrgOf(e.t) # e.torg /\ OrgRole(e, e.torg) \in {"owner", "admin"}
(* what is seen of a project, by the marks on it; 9 marks what was made for a missing one *)
Seen(e, ps) == \A i \in 1..Len(e.seen) : \E p \in ps : e.seen[i] = CASE p = 1 -> "p1" [] p = 2 -> "p2" [] p = 3 -> "p3" [] p = 0 -> "p0" [] OTHER -> "p9"
Ids(e) == SetOf(e.ids)
Listed(e) == CASE e.op = "prj_list" /\ e.st = 200 -> Ids(e) = {p \in 1..3 : OrgOf(p) = e.torg /\ OnProject(e.srv, OrgRole(e, e.torg), PrjRole(e, p), "ViewProject")}
               [] e.op = "org_list" /\ e.st = 200 -> Ids(e) = {o \in 1..2 : OnOrg(e.srv, OrgRole(e, o), "ViewOrganization")}
               [] OTHER -> TRUE
Refused(e) == e.st = 403 /\ e.err /\ ~e.changed /\ e.seen = <<>> /\ e.ids = <<>>
(* these answer from stored events, which there are none of here *)
Data == {"er_get", "er_search", "grr_get", "grr_search", "es", "funnel", "values", "gr_create", "ev_detach", "ev_attach", "bk_get"}
Done1(e) == /\ e.st \notin {401, 403}
            /\ e.ex /\ e.op \notin Data => e.st \in 200..299
            /\ e.op \in Reads => ~e.changed
            /\ e.st \notin 200..299 => ~e.changed \/ e.op \in Data
            /\ (e.st \in 200..299 /\ e.op \notin Reads /\ e.op \notin Data) => e.changed
            /\ IF ProjectOp(e.op) # "-" THEN Seen(e, {e.t}) ELSE Seen(e, {p \in 0..9 : IF p = 0 THEN e.torg = 0 ELSE OrgOf(p) = e.torg \/ e.op = "prj_create"})
            /\ Listed(e)
Ok(e) ==
  CASE e.k = "anon" -> e.st = 401 /\ e.err /\ ~e.changed
    [] e.k = "call" -> IF Permitted(e) THEN Done1(e) ELSE Refused(e) \/ (Foreign(e) /\ e.st # 403 /\ Known("foreign-project", l))
    [] OTHER -> FALSE
TSpec == LInit /\ [][More /\ Judge(Ok(Trace[l]))]_l
Ops == {Trace[i].op : i \in 1..Len(Trace)}
Covers == /\ \A op \in Ops : ServerOp(op) # "-" \/ OrgOp(op) # "-" \/ ProjectOp(op) # "-"
          /\ Cardinality(Ops) = 65
Done == Complete /\ Covers
=============================================================================
