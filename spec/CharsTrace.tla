---- MODULE CharsTrace ----
EXTENDS Chars, TraceCheck
====
