------------------------------ MODULE InversePhi ------------------------------
(* N11: the set of all m with phi(m) = v, by choosing for each prime p with
   p - 1 | v (largest first) the exponent of p in m.  InverseMC checks it against
   the definition.                                                             *)
EXTENDS ArithFun, Judge
SmallDivs(n) == LET lo == { d \in 1 .. Root(n) : n % d = 0 } IN lo \cup { n \div d : d \in lo }
Candidates(n) == SetToSortSeq({ d + 1 : d \in { x \in SmallDivs(n) : Prime(x + 1) } }, >)
RECURSIVE Pre(_, _, _)
Pre(v, ps, i) ==          \* m built from ps[i], ps[i+1], ...
  IF i > Len(ps) THEN (IF v = 1 THEN {1} ELSE {})
  ELSE LET p == ps[i]
           RECURSIVE Use(_, _)
           Use(w, pk) == { pk * x : x \in Pre(w, ps, i + 1) } \cup (IF w % p = 0 THEN Use(w \div p, pk * p) ELSE {})
       IN Pre(v, ps, i + 1) \cup (IF v % (p - 1) = 0 THEN Use(v \div (p - 1), p) ELSE {})
Preimage(n) == IF n = 1 THEN {1, 2} ELSE IF n % 2 = 1 THEN {} ELSE Pre(n, Candidates(n), 1)
InversephiVerdict(e) ==
  LET a == e.in IN
  CASE e.op = "invalid" -> Raises(e.out, "ValueError")
    [] e.op \in {"euler_phi_inverse", "inverse_phi"} ->
         IF a.n < 1 THEN Raises(e.out, "ValueError") ELSE Is(e.out, SetToSortSeq(Preimage(a.n), <))
=============================================================================
