---- MODULE FormatsTrace ----
EXTENDS Formats, TraceCheck
====
