---- MODULE TraceStrike ----
EXTENDS Strike, HistCore
====
