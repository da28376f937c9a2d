---- MODULE TraceDerived ----
EXTENDS Derived, TraceCore
====
