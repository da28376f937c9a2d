---- MODULE TraceOptimise ----
EXTENDS Optimise, TraceCore
====
