---------------------------- MODULE StrSearchTrace ----------------------------
EXTENDS StrSearch, TraceCheck
=============================================================================
