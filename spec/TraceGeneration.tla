---- MODULE TraceGeneration ----
EXTENDS Generation, TraceCore
====
