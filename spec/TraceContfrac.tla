---- MODULE TraceContfrac ----
EXTENDS ContFrac, TraceCore
====
