---- MODULE TraceSieves ----
EXTENDS Sieves, TraceCore
====
