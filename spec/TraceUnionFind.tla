---- MODULE TraceUnionFind ----
EXTENDS Partition, HistCore
====
