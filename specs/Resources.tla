----------------------------- MODULE Resources ------------------------------
(* What is kept through the API: reports, dashboards, bookmarks, events, custom events, properties, *)
(* projects, organizations and accounts. An object has its kind, project (0 for those of the whole  *)
(* server), id, the text of each field ("" for nothing), the properties attached to it (events      *)
(* only), who made it and changed it last, and when.                                                *)
EXTENDS Integers, Sequences, FiniteSets
Global == {"project", "org", "account"}
PropFields == {"name", "displayName", "description", "tags", "typ", "groupId", "order", "dataType", "status", "hidden", "isSystem", "nullable", "isArray", "isDictionary", "dictionaryType", "events"}
Fields(k) ==
  CASE k = "report" -> {"tags", "name", "description", "type", "query"}
    [] k = "dashboard" -> {"tags", "name", "description", "panels"}
    [] k = "bookmark" -> {"query"}
    [] k = "event" -> {"tags", "name", "displayName", "description", "status", "isSystem", "userProperties"}
    [] k = "cevent" -> {"tags", "name", "description", "status", "isSystem", "events"}
    [] k \in {"eprop", "gprop"} -> PropFields
    [] k = "project" -> {"tags", "name", "description", "sessionDurationSeconds", "sdkToken", "eventsCount"}
    [] k = "org" -> {"name"}
    [] k = "account" -> {"email", "name", "force_update_password", "force_update_email", "role"}
(* what may be changed later *)
Open(k) ==
  CASE k \in {"report", "dashboard", "org"} -> Fields(k)
    [] k = "bookmark" -> {}
    [] k \in {"event", "eprop", "gprop"} -> {"tags", "displayName", "description", "status"}
    [] k = "cevent" -> Fields(k) \ {"isSystem"}
    [] k = "project" -> Fields(k) \ {"eventsCount"}
    [] k = "account" -> Fields(k) \ {"force_update_email"}
(* what a client calls a field in a request *)
Asked(f) == CASE f = "force_update_password" -> "forceUpdatePassword" [] f = "force_update_email" -> "forceUpdateEmail" [] f = "sdkToken" -> "token" [] OTHER -> f
Initially(k, f) == CASE f = "sessionDurationSeconds" -> "=1800" [] f = "eventsCount" -> "=0" [] OTHER -> ""
Keys(k) == CASE k = "event" -> {"name", "displayName"} [] k \in {"cevent", "org"} -> {"name"} [] k \in {"eprop", "gprop"} -> {"displayName"} [] k = "project" -> {"name", "sdkToken"} [] k = "account" -> {"email"} [] OTHER -> {}
Of(s, k, p) == {o \in s.objs : o.k = k /\ o.p = p}
(* the objects a caller may see: a bookmark is its maker's alone *)
Seen(s, k, p, w) == {o \in Of(s, k, p) : k = "bookmark" => o.by = w}
Clash(others, k, f) == \E o \in others : \E x \in Keys(k) : f[x] # "" /\ o.f[x] = f[x]
Made(k, body) == [f \in Fields(k) |-> IF Asked(f) \in DOMAIN body THEN body[Asked(f)] ELSE Initially(k, f)]
Changed(k, f, body) == [x \in Fields(k) |-> IF x \in Open(k) /\ Asked(x) \in DOMAIN body THEN body[Asked(x)] ELSE f[x]]
New1(k, p, w, id, f, at) == [k |-> k, p |-> p, id |-> id, f |-> f, ps |-> <<>>, by |-> w, upd |-> 0, at |-> at, uat |-> 0]
Edited(o, w, f, at) == [o EXCEPT !.f = f, !.upd = w, !.uat = at]
Holds(o, prop) == \E i \in DOMAIN o.ps : o.ps[i] = prop
Attached(o, prop) == IF Holds(o, prop) THEN o ELSE [o EXCEPT !.ps = Append(@, prop)]
Detached(o, prop) == LET Other(x) == x # prop IN [o EXCEPT !.ps = SelectSeq(@, Other)]
Put(s, o) == [s EXCEPT !.objs = {x \in @ : ~(x.k = o.k /\ x.p = o.p /\ x.id = o.id)} \cup {o}, !.used = @ \cup {<<o.k, o.p, o.id>>}]
Gone(s, o) == [s EXCEPT !.objs = @ \ {o}]
(* a custom event names events and custom events that exist *)
Missing(s, k, p, ns, cs) == k = "cevent" /\ (\/ \E n \in ns : \A o \in Of(s, "event", p) : o.f.name # n
                                            \/ \E c \in cs : \A o \in Of(s, "cevent", p) : o.id # c)
OneName(s) == \A a, b \in s.objs : a # b /\ a.k = b.k /\ a.p = b.p => a.id # b.id /\ ~Clash({a}, b.k, b.f)
=============================================================================
