----------------------------- MODULE TransTrace -----------------------------
EXTENDS Trans, TraceCheck
=============================================================================
