---- MODULE TraceMemo ----
EXTENDS Memo, HistCore
====
