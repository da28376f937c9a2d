---- MODULE TracePrimecount ----
EXTENDS PrimeCount, TraceCore
====
