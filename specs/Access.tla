------------------------------- MODULE Access -------------------------------
(* Who may do what. A caller has a server role (or none), at most one role in each organization    *)
(* and at most one in each project; teams grant nothing. Every operation of the API names the      *)
(* permission it needs and the thing it needs it on.                                                *)
EXTENDS Naturals, Sequences, FiniteSets
ServerPermissions == {"All", "ManageAccounts", "ViewAccounts", "ManageOrganizations", "ViewOrganizations", "ManageProjects", "ManageServer"}
OrgPermissions == {"All", "ViewOrganization", "ManageOrganization", "ManageProjects", "ExploreProjects", "DeleteOrganization"}
ProjectPermissions == {"All", "ManageProject", "DeleteProject", "ViewProject", "ManageSchema", "DeleteSchema", "ViewSchema", "InviteMembers", "ManageMembers", "ExploreReports", "ManageReports"}
OrgRoles == {"none", "owner", "admin", "member"}
ProjectRoles == {"none", "owner", "admin", "member", "reader"}
ServerGrants(admin) == IF admin THEN {"All"} ELSE {}
OrgGrants(role) == CASE role = "owner" -> {"All"} [] role = "admin" -> {"ManageProjects"} [] OTHER -> {}
ProjectGrants(role) ==
  CASE role = "owner" -> {"All"}
    [] role = "admin" -> {"ManageProject", "InviteMembers", "ManageMembers", "ExploreReports", "ManageReports", "ViewSchema", "ManageSchema"}
    [] role = "member" -> {"ExploreReports", "ManageReports", "ViewSchema", "ManageSchema"}
    [] role = "reader" -> {"ExploreReports", "ViewSchema"}
    [] OTHER -> {}
Grants(g, perm) == "All" \in g \/ perm \in g
OnServer(admin, perm) == Grants(ServerGrants(admin), perm)
OnOrg(admin, orole, perm) == OnServer(admin, "ManageOrganizations") \/ Grants(OrgGrants(orole), perm)
(* orole is the caller's role in the organization the call is made for, prole the one in the project *)
OnProject(admin, orole, prole, perm) == OnServer(admin, "ManageProjects") \/ orole \in {"owner", "admin"} \/ Grants(ProjectGrants(prole), perm)
--------------------------------------------------------------------------------
(* Operations: what they need, and where. *)
ServerOp(op) ==
  CASE op \in {"org_create", "org_delete"} -> "ManageOrganizations" [] op = "org_list" -> "ViewOrganizations"
    [] op \in {"acc_create", "acc_list", "acc_get", "acc_update", "acc_delete"} -> "ManageAccounts"
    [] op \in {"bk_list", "bk_create", "bk_get", "st_get", "st_put"} -> "ManageServer" [] OTHER -> "-"
(* on the organization named by the call; projects are made in, and listed from, the token's *)
OrgOp(op) ==
  CASE op \in {"org_get", "org_switch"} -> "ViewOrganization" [] op = "org_update" -> "ManageOrganization"
    [] op = "prj_create" -> "ManageProjects" [] op = "prj_list" -> "ExploreProjects" [] OTHER -> "-"
ProjectOp(op) ==
  CASE op = "prj_get" -> "ViewProject" [] op = "prj_update" -> "ManageProject" [] op = "prj_delete" -> "DeleteProject"
    [] op \in {"ev_list", "ev_get", "ev_name", "ce_list", "ce_get", "ep_list", "ep_get", "ep_name", "gp_list", "gp_get", "gp_name", "gr_list"} -> "ViewSchema"
    [] op \in {"ev_create", "ev_update", "ev_attach", "ev_detach", "ce_create", "ce_update", "ep_update", "gp_update", "gr_create"} -> "ManageSchema"
    [] op \in {"ev_delete", "ce_delete", "ep_delete", "gp_delete"} -> "DeleteSchema"
    [] op \in {"rp_create", "rp_update", "rp_delete", "ds_create", "ds_update", "ds_delete"} -> "ManageReports"
    [] op \in {"values", "rp_list", "rp_get", "ds_list", "ds_get", "bm_create", "bm_get", "er_get", "er_search", "grr_get", "grr_search", "es", "funnel"} -> "ExploreReports"
    [] OTHER -> "-"
Reads == {"prj_list", "prj_get", "ev_list", "ev_get", "ev_name", "ce_list", "ce_get", "ep_list", "ep_get", "ep_name", "gp_list", "gp_get", "gp_name", "gr_list", "values", "rp_list",
          "rp_get", "ds_list", "ds_get", "bm_get", "er_get", "er_search", "grr_get", "grr_search", "es", "funnel", "org_list", "org_get", "org_switch", "acc_list", "acc_get", "bk_list", "bk_get", "st_get"}
=============================================================================
