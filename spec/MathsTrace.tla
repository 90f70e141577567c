---- MODULE MathsTrace ----
EXTENDS Maths, TraceCheck
====
