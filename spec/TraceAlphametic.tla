---- MODULE TraceAlphametic ----
EXTENDS Alphametic, TraceCore
====
