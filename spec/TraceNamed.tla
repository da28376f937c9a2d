---- MODULE TraceNamed ----
EXTENDS Partition, HistCore
====
