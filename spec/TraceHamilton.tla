---- MODULE TraceHamilton ----
EXTENDS Hamilton, TraceCore
====
