---- MODULE FaultsTrace ----
EXTENDS Faults, TraceCheck
====
