---- MODULE TraceTables ----
EXTENDS Tables, TraceCore
====
