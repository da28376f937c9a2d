---- MODULE TracePacking ----
EXTENDS Packing, TraceCore
====
