----------------------------- MODULE StoreTrace -----------------------------
(* The calls recorded of a real store, explained by Store. *)
EXTENDS StateTrace, Store
Start(e) == Empty
When(c, T) == IF c THEN T ELSE {}
Is(e, what) == e.r.e = what
Known1(s, e) == e.t \in DOMAIN s.tabs
Fits(s, e) == \A i \in 1..Len(e.v) : e.v[i][1] \in s.tabs[e.t].cols /\ Len(e.v[i]) = 2       \* a third element says the value is of another type
Evicted(s, e) == Cardinality({m \in s.marks : m[1][1] = e.t}) > 10
InsertOf(s, e) == IF ~Known1(s, e) THEN When(Is(e, "internal"), {s}) ELSE IF ~Fits(s, e) THEN When(Is(e, "internal"), {s}) ELSE When(Is(e, "ok"), {Insert(s, e.t, Row(e.key, e.v))})
ReplaceOf(s, e) ==
  IF Accepts(s, e.t, e.key) THEN When(Is(e, "ok"), {Replace(s, e.t, Row(e.key, e.v))})
  ELSE IF Is(e, "ok") THEN When(Evicted(s, e) /\ Deviates("cas-evicted"), {Replace(s, e.t, Row(e.key, e.v))})
  ELSE When(Is(e, "internal"), {s})
ReadMarked(s, e) == When(Is(e, "ok") /\ GetOk(s.tabs[e.t], e.key, e.cols, e.r.o), {IF e.r.o = <<>> THEN s ELSE Mark(s, At(s, e.t, e.r.o[1][1]), e.r.o[1][1][s.tabs[e.t].idx])})
RECURSIVE Step(_, _, _)
Step(s, e, par) ==
  CASE e.a = "create" -> IF Known1(s, e) THEN When(Is(e, "exists"), {s}) ELSE When(Is(e, "ok"), {Create(s, e.t, e.idx, e.rep)})
    [] e.a = "field" -> IF e.f \in s.tabs[e.t].cols THEN When(Is(e, "exists"), {s}) ELSE When(Is(e, "ok"), {Field(s, e.t, e.f)})
    [] e.a = "ins" -> InsertOf(s, e)
    [] e.a = "rep" -> ReplaceOf(s, e)
    (* a restore may have taken away the table or its columns *)
    [] e.a = "scan" -> IF ~Known1(s, e) \/ ~(SetOf(e.cols) \subseteq s.tabs[e.t].cols) THEN When(Is(e, "internal"), {s}) ELSE When(Is(e, "ok") /\ ScanOk(s.tabs[e.t], e.cols, e.r.o), {s})
    [] e.a = "part" -> IF ~Known1(s, e) \/ ~(SetOf(e.cols) \subseteq s.tabs[e.t].cols) THEN When(Is(e, "internal"), {s}) ELSE When(Is(e, "ok") /\ ScanPartOk(s.tabs[e.t], e.ks, e.cols, e.r.o), {s})
    [] e.a = "get" -> When(Is(e, "ok") /\ GetOk(s.tabs[e.t], e.key, e.cols, e.r.o), {s})
    [] e.a = "gcas" -> ReadMarked(s, e)
    [] e.a = "flush" -> IF Known1(s, e) THEN When(Is(e, "ok"), {s}) ELSE When(Is(e, "internal"), {s})
    [] e.a = "step" -> When(Is(e, "ok"), {s})
    [] e.a \in {"reopen", "open"} -> When(Is(e, "ok"), {Restart(s)})
    [] e.a = "backup" -> When(Is(e, "ok"), {Backup(s, e.b)})
    [] e.a = "restore" -> When(Is(e, "ok"), {Restore(s, e.b)})
    [] e.a = "badrestore" -> When(Is(e, "other"), {s})
    (* the process ended within this call: it is in effect or it is not *)
    [] e.a = "cut" -> {s} \cup Step(s, e.op @@ [r |-> [e |-> "ok"]], par)
    [] OTHER -> {}
TSpec == SInit /\ [][SNext(Start, Step)]_<<l, S>>
Sound == \A s \in S : KeysFit(s) /\ MarksFresh(s)
=============================================================================
