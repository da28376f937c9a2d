---- MODULE TraceSteiner ----
EXTENDS Steiner, TraceCore
====
