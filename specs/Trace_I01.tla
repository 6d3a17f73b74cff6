----------------------------- MODULE Trace_I01 ------------------------------
EXTENDS IngestTrace
=============================================================================
