---------------------------- MODULE BuilderTrace ----------------------------
EXTENDS Builder, TraceCheck
=============================================================================
