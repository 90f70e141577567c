------------------------------ MODULE PoolTrace ------------------------------
EXTENDS Pool, TraceCheck
=============================================================================
