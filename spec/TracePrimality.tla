---- MODULE TracePrimality ----
EXTENDS Primality, TraceCore
====
