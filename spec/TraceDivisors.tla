---- MODULE TraceDivisors ----
EXTENDS Divisors, TraceCore
====
