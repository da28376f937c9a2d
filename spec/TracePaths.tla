----------------------------- MODULE TracePaths -----------------------------
EXTENDS Paths, TraceCore
=============================================================================
