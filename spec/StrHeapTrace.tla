----------------------------- MODULE StrHeapTrace -----------------------------
EXTENDS StrHeap, TraceCheck
=============================================================================
