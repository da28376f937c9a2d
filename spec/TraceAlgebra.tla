---- MODULE TraceAlgebra ----
EXTENDS Algebra, TraceCore
====
