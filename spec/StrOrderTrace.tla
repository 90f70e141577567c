---------------------------- MODULE StrOrderTrace ----------------------------
EXTENDS StrOrder, TraceCheck
=============================================================================
