---- MODULE TraceElementary ----
EXTENDS Elementary, TraceCore
====
