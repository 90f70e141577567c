----------------------------- MODULE LargeTrace -----------------------------
EXTENDS Large, TraceCheck
=============================================================================
