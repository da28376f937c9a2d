---- MODULE TraceProgressions ----
EXTENDS Progressions, TraceCore
====
