---- MODULE TraceCounting ----
EXTENDS Counting, TraceCore
====
