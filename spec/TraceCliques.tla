---- MODULE TraceCliques ----
EXTENDS Cliques, TraceCore
====
