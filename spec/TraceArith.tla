---- MODULE TraceArith ----
EXTENDS Arith, TraceCore
====
