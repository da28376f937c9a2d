-------------------------------- MODULE Memo --------------------------------
(* Memoised functions.  Each call names a function f and an argument tuple a.
   The wrapped function is scripted: it raises if a contains 7 and otherwise
   returns Val(f, a) (None, recorded as -1, if a contains 8).
   Abstract state: per function the set of argument tuples already computed
   and the number of times the wrapped function has run.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Judge
Has(a, x) == \E i \in 1 .. Len(a) : a[i] = x
RECURSIVE Poly(_)
Poly(a) == IF a = <<>> THEN 0 ELSE Head(a) + 10 * Poly(Tail(a))
Val(f, a) == IF Has(a, 8) THEN -1 ELSE IF Has(a, 9) THEN 0 ELSE 100000 * f + Poly(a)
MInit(in) == [f \in 1 .. 3 |-> [seen |-> {}, runs |-> 0]]
Ok(st) == [v |-> "ok", st |-> st]
No(name, st) == [v |-> name, st |-> st]
\* outcome of a call: <<"val", value, runs>> or <<"exc", 0, runs>>
Call(st, f, a) ==
  IF Has(a, 7) THEN [st EXCEPT ![f].runs = @ + 1]
  ELSE IF a \in st[f].seen THEN st
  ELSE [st EXCEPT ![f].seen = @ \cup {a}, ![f].runs = @ + 1]
MStep(st, op, out) ==
  LET f == op[2]
      a == op[3]
      s2 == Call(st, f, a)
  IN IF out.k # "ret" THEN No("outcome:" \o out.k, st)
     ELSE CASE Has(a, 7) /\ out.v[1] # "exc" -> No("exception-lost", st)
            [] ~ Has(a, 7) /\ out.v[1] # "val" -> No("spurious-exception", st)
            [] ~ Has(a, 7) /\ out.v[2] # Val(f, a) -> No("value", st)
            [] out.v[3] # s2[f].runs -> No("number-of-evaluations", st)
            [] OTHER -> Ok(s2)
=============================================================================
