---- MODULE TraceFactoring ----
EXTENDS Factoring, TraceCore
====
