---------------------------- MODULE MC_StoreDisk ----------------------------
EXTENDS StoreDisk
=============================================================================
