------------------------------ MODULE Trace_C01 -----------------------------
EXTENDS TraceLib, Access
Ok(e) ==
  /\ e.k = "roles" /\ e.other = 0
  /\ SetOf(e.g) = {p \in ServerPermissions : OnServer(e.srv, p)}
  /\ \A p \in OrgPermissions, i \in 1..3 : (\E n \in 1..Len(e.go) : e.go[n] = <<i, p>>) <=> OnOrg(e.srv, e.orgs[i], p)
  /\ LET all == SetOf(e.gp) IN \A p \in ProjectPermissions, i \in 1..3, j \in 1..3 : <<i, j, p>> \in all <=> OnProject(e.srv, e.orgs[i], e.prjs[j], p)
TSpec == LInit /\ [][More /\ Judge(Ok(Trace[l]))]_l
Covers == \A a \in OrgRoles, b \in OrgRoles, c \in ProjectRoles, d \in ProjectRoles, s \in BOOLEAN :
            \E i \in 1..Len(Trace) : Trace[i].srv = s /\ Trace[i].orgs = <<a, b, "none">> /\ Trace[i].prjs = <<c, d, "none">>
Done == Complete /\ Covers
=============================================================================
