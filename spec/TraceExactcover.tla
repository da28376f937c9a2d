---- MODULE TraceExactcover ----
EXTENDS ExactCover, TraceCore
====
