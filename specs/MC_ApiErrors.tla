---------------------------- MODULE MC_ApiErrors ----------------------------
(* A failure born in some layer, decorated on its way up, then written out as a response.         *)
EXTENDS ApiErrors
VARIABLES err, born, out, steps
vars == <<err, born, out, steps>>
Msgs == {"", "m"}
Fs == {{}, {<<"a", "bad">>}, {<<"a", "bad">>, <<"b", "missing">>}}
None == [line |-> 0, status |-> 0, message |-> "", fields |-> {}]
Init == \E k \in Kinds, m \in Msgs : err = New(k, m) /\ born = New(k, m) /\ out = None /\ steps = 0
Fields == steps < 3 /\ out = None /\ \E f \in Fs : err' = WithFields(err, f) /\ steps' = steps + 1 /\ UNCHANGED <<born, out>>
Wrap == steps < 3 /\ out = None /\ err' = Because(err, "why") /\ steps' = steps + 1 /\ UNCHANGED <<born, out>>
Respond == out = None /\ out' = Response(err) /\ UNCHANGED <<err, born, steps>>
Next == Fields \/ Wrap \/ Respond
Spec == Init /\ [][Next]_vars
SameStatus == out # None => out.line = out.status /\ out.line = Status[born.kind]
KeepsMessage == SubSeq(err.msg, 1, Len(born.msg)) = born.msg /\ (out # None => out.message = err.msg)
KeepsFields == out # None => out.fields = err.fields
=============================================================================
