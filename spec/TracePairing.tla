---------------------------- MODULE TracePairing ----------------------------
EXTENDS Heaps, HistCore
=============================================================================
