----------------------------- MODULE Trace_S07 -----------------------------
EXTENDS StoreTrace
=============================================================================
