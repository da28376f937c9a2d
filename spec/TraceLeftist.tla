---------------------------- MODULE TraceLeftist ----------------------------
EXTENDS Heaps, HistCore
=============================================================================
