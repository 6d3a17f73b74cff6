----------------------------- MODULE Trace_S05 -----------------------------
EXTENDS StoreTrace
=============================================================================
