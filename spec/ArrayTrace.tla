----------------------------- MODULE ArrayTrace -----------------------------
EXTENDS ArrayMem, TraceCheck
=============================================================================
