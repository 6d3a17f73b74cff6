----------------------------- MODULE Trace_S01 -----------------------------
EXTENDS StoreTrace
=============================================================================
