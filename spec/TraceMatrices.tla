---- MODULE TraceMatrices ----
EXTENDS Matrices, TraceCore
====
