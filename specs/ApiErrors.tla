------------------------------ MODULE ApiErrors -----------------------------
(* Failures, their HTTP status and the JSON error body (property C06).                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Kinds == {"bad_request", "unauthorized", "forbidden", "not_found", "conflict", "internal", "unimplemented"}
Status == [bad_request |-> 400, unauthorized |-> 401, forbidden |-> 403, not_found |-> 404, conflict |-> 409, internal |-> 500, unimplemented |-> 501]
(* an error is its kind, a text, and field details *)
New(k, m) == [kind |-> k, msg |-> m, fields |-> {}]
WithFields(e, f) == [e EXCEPT !.fields = f]
Because(e, why) == [e EXCEPT !.msg = @ \o ": " \o why]
Response(e) == [line |-> Status[e.kind], status |-> Status[e.kind], message |-> e.msg, fields |-> e.fields]
ASSUME \A a, b \in Kinds : Status[a] = Status[b] => a = b
(* where each failure of the layers ends up *)
MetadataKind(v) == CASE v = "AlreadyExists" -> "conflict" [] v = "NotFound" -> "not_found" [] v = "BadRequest" -> "bad_request" [] v = "Forbidden" -> "forbidden" [] OTHER -> "internal"
Metas == {"AlreadyExists", "NotFound", "BadRequest", "Forbidden", "Internal", "Store", "Io", "Other", "FromUtf8"}
Meta(v) == CHOOSE x \in Metas : v = "Metadata." \o x
IsMeta(v) == \E x \in Metas : v = "Metadata." \o x
PlatformKind(v) ==
  CASE v \in {"BadRequest", "Serde", "Decimal", "InvalidFields", "Common.BadRequest", "Common.Serde"} -> "bad_request"
    [] v \in {"Unauthorized", "Auth.InvalidCredentials", "Auth.InvalidRefreshToken", "Auth.CantParseBearerHeader", "Auth.CantParseAccessToken"} -> "unauthorized"
    [] v = "Forbidden" -> "forbidden" [] v = "NotFound" -> "not_found" [] v = "AlreadyExists" -> "conflict"
    [] v \in {"Unimplemented", "Query.Unimplemented"} -> "unimplemented"
    [] IsMeta(v) -> MetadataKind(Meta(v))
    [] OTHER -> "internal"
IngesterKind(v) == CASE v \in {"BadRequest", "Serde"} -> "bad_request" [] IsMeta(v) -> MetadataKind(Meta(v)) [] OTHER -> "internal"
LayerKind(layer, v) == IF layer = "ingester" THEN IngesterKind(v) ELSE PlatformKind(v)
=============================================================================
