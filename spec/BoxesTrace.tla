---- MODULE BoxesTrace ----
EXTENDS Boxes, TraceCheck
====
