---- MODULE TraceGraphObject ----
EXTENDS GraphObject, HistCore
====
