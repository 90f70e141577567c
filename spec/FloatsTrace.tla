---- MODULE FloatsTrace ----
EXTENDS Floats, TraceCheck
====
