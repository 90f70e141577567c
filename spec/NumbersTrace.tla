---- MODULE NumbersTrace ----
EXTENDS Numbers, TraceCheck
====
