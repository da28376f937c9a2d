------------------------------- MODULE Judge -------------------------------
(* Outcome algebra shared by all trace specifications.  A recorded outcome is
   [k |-> "ret", v |-> value], [k |-> "exc", t |-> type name], [k |-> "bad"]
   (a value of the wrong shape) or [k |-> "hang"].  A verdict is "ok" or the
   name of the clause that failed, so judging is total.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* the call must return, and then P (a verdict) is the result
Ret(out, P(_)) == IF out.k = "ret" THEN P(out.v)
                  ELSE IF out.k = "exc" THEN "raised:" \o out.t
                  ELSE "outcome:" \o out.k

\* the call must return exactly x
Is(out, x) == Ret(out, LAMBDA v : IF v = x THEN "ok" ELSE "value")

\* the call must return something for which b holds; name is the clause
Holds(out, name, B(_)) == Ret(out, LAMBDA v : IF B(v) THEN "ok" ELSE name)

\* the call must raise exactly the documented exception
Raises(out, t) == IF out.k = "exc" THEN (IF out.t = t THEN "ok" ELSE "raised:" \o out.t)
                  ELSE "no-exception:" \o out.k

\* conjunction of clauses: the first that fails names the verdict
RECURSIVE FirstBad(_)
FirstBad(cs) == IF cs = <<>> THEN "ok" ELSE IF Head(cs) # "ok" THEN Head(cs) ELSE FirstBad(Tail(cs))
Cl(name, b) == IF b THEN "ok" ELSE name
=============================================================================
