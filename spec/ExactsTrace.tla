----------------------------- MODULE ExactsTrace -----------------------------
EXTENDS Exacts, TraceCheck
=============================================================================
