---- MODULE TraceZnarith ----
EXTENDS ZnArith, TraceCore
====
