------------------------------ MODULE BitsTrace ------------------------------
EXTENDS Bits, TraceCheck
=============================================================================
