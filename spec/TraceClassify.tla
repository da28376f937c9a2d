---- MODULE TraceClassify ----
EXTENDS Classify, TraceCore
====
