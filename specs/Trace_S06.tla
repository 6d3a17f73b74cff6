----------------------------- MODULE Trace_S06 -----------------------------
EXTENDS StoreTrace
=============================================================================
