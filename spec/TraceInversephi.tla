---- MODULE TraceInversephi ----
EXTENDS InversePhi, TraceCore
====
