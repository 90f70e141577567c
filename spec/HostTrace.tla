------------------------------ MODULE HostTrace ------------------------------
EXTENDS Host, TraceCheck
=============================================================================
