---- MODULE TraceTrees ----
EXTENDS Trees, TraceCore
====
