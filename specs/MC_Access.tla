----------------------------- MODULE MC_Access ------------------------------
(* A small server with two organizations of two and one projects, and callers whose roles come and go. *)
(* Every operation is answered by the permission rules; the design keeps these promises:            *)
(* rights shrink from owner to reader, a caller without roles can do nothing, roles held elsewhere  *)
(* do not matter, and what a caller may change it may also see.                                      *)
EXTENDS Access
Ops == {"prj_create", "prj_list", "prj_get", "prj_update", "prj_delete", "ev_list", "ev_create", "ev_delete", "rp_create", "rp_get", "es", "org_get", "org_update", "org_delete", "org_list", "acc_list", "acc_update", "st_put"}
VARIABLES admin, orole, prole, torg, last
vars == <<admin, orole, prole, torg, last>>
OrgOf(p) == ((p + 1) \div 2)
Permitted(op, tgt) ==
  IF ServerOp(op) # "-" THEN OnServer(admin, ServerOp(op))
  ELSE IF OrgOp(op) # "-" THEN OnOrg(admin, orole[IF op \in {"prj_create", "prj_list"} THEN torg ELSE ((tgt + 1) \div 2)], OrgOp(op))
  ELSE OnProject(admin, IF OrgOf(tgt) = torg THEN orole[torg] ELSE "none", prole[tgt], ProjectOp(op))
None == [op |-> "-", tgt |-> 0, ok |-> FALSE]
Init == admin \in BOOLEAN /\ orole \in [1..2 -> OrgRoles] /\ prole \in [1..3 -> ProjectRoles] /\ torg \in 1..2 /\ last = None
Call == \E op \in Ops, t \in 1..3 : last' = [op |-> op, tgt |-> t, ok |-> Permitted(op, t)] /\ UNCHANGED <<admin, orole, prole, torg>>
Next == last = None /\ Call
Spec == Init /\ [][Next]_vars
Nobody == (~admin /\ (\A o \in 1..2 : orole[o] = "none") /\ (\A p \in 1..3 : prole[p] = "none")) => ~last.ok
Root == admin /\ last.op # "-" => last.ok
Elsewhere == last.ok /\ ~admin /\ ProjectOp(last.op) # "-" => (OrgOf(last.tgt) = torg /\ orole[torg] \in {"owner", "admin"}) \/ prole[last.tgt] # "none"
OthersOrg == last.ok /\ ~admin /\ last.op \in {"org_get", "org_update"} => orole[((last.tgt + 1) \div 2)] = "owner"
Server == last.ok /\ ServerOp(last.op) # "-" => admin
ASSUME \A p \in ProjectPermissions : /\ (Grants(ProjectGrants("reader"), p) => Grants(ProjectGrants("member"), p))
                                     /\ (Grants(ProjectGrants("member"), p) => Grants(ProjectGrants("admin"), p))
                                     /\ (Grants(ProjectGrants("admin"), p) => Grants(ProjectGrants("owner"), p))
                                     /\ ~Grants(ProjectGrants("none"), p)
ASSUME \A p \in OrgPermissions : /\ (Grants(OrgGrants("admin"), p) => Grants(OrgGrants("owner"), p)) /\ ~Grants(OrgGrants("none"), p) /\ ~Grants(OrgGrants("member"), p)
ASSUME ProjectGrants("reader") # ProjectGrants("member") /\ ProjectGrants("member") # ProjectGrants("admin") /\ "All" \notin ProjectGrants("admin")
ASSUME \A op \in Ops : Cardinality({f \in {1, 2, 3} : (CASE f = 1 -> ServerOp(op) [] f = 2 -> OrgOp(op) [] f = 3 -> ProjectOp(op)) # "-"}) = 1
=============================================================================
