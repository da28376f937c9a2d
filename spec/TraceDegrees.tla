---- MODULE TraceDegrees ----
EXTENDS Degrees, TraceCore
====
