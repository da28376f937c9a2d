---- MODULE TraceTours ----
EXTENDS Tours, TraceCore
====
