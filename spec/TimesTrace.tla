---- MODULE TimesTrace ----
EXTENDS Times, TraceCheck
====
