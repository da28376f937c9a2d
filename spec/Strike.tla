------------------------------- MODULE Strike -------------------------------
(* Bit sieve: abstract state is the set of numbers still present in 1..n.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Judge
SInit(in) == [n |-> in.n, s |-> 1 .. in.n]
Strike(st, p) == [st EXCEPT !.s = { x \in st.s : x % p # 0 }]
Prefix(st, m) == Cardinality({ x \in st.s : x <= m })
Ok(st) == [v |-> "ok", st |-> st]
No(name, st) == [v |-> name, st |-> st]
SStep(st, op, out) ==
  LET chk(v, s2) == IF v = "ok" THEN Ok(s2) ELSE No(v, st)
  IN CASE op[1] = "mark" -> chk(Is(out, 0), Strike(st, op[2]))
       [] op[1] = "update" -> chk(Is(out, 0), st)
       [] op[1] = "sum" -> chk(Is(out, Prefix(st, op[2])), st)
       [] op[1] = "sums" -> chk(Is(out, [m \in 1 .. st.n |-> Prefix(st, m)]), st)
       [] op[1] = "entries" -> chk(Is(out, [m \in 1 .. st.n |-> IF m \in st.s THEN 1 ELSE 0]), st)
=============================================================================
