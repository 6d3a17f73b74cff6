------------------------------ MODULE TraceLib ------------------------------
(* Reading recorded behaviour of the implementation. A trace is an ndjson file named by the      *)
(* environment variable TRACE; every line is one observed event with its arguments and outcome.  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l                                       \* position in Trace
Has(e, f) == f \in DOMAIN e
(* A rejected line is reported and counted; validation goes on with the next line. *)
Bad(i, want) == PrintT(<<"BADLINE", i, want>>)
Known(id, i) == PrintT(<<"KNOWN", id, i>>)
LInit == l = 1
(* table traces: every line is judged on its own *)
Judge(ok) == ok \/ (~ok /\ Bad(l, Trace[l].k))
More == l <= Len(Trace) /\ l' = l + 1
Complete == TLCGet("stats").diameter - 1 = Len(Trace)
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
SetOf(s) == {s[i] : i \in 1..Len(s)}             \* the elements of a sequence
=============================================================================
