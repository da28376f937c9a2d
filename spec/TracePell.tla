---- MODULE TracePell ----
EXTENDS Pell, TraceCore
====
