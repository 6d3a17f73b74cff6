----------------------------- MODULE Trace_I02 ------------------------------
EXTENDS IngestTrace
=============================================================================
