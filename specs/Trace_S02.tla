----------------------------- MODULE Trace_S02 -----------------------------
EXTENDS StoreTrace
=============================================================================
