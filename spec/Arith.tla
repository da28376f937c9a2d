-------------------------------- MODULE Arith --------------------------------
(* N09: single values of the arithmetic functions.                           *)
EXTENDS ArithFun, Judge
BigFact(n) == NProd([i \in 1 .. n |-> NOf(i)])
ArithVerdict(e) ==
  LET a == e.in IN
  CASE e.op = "invalid" -> Raises(e.out, "ValueError")
    [] e.op = "factorial" -> IF a.n < 0 THEN Raises(e.out, "ValueError") ELSE Is(e.out, Z(1, BigFact(a.n)))
    [] e.op = "primorial" -> IF a.n < 1 THEN Raises(e.out, "ValueError")
                             ELSE LET ps == SetToSortSeq({ p \in 2 .. a.top : Prime(p) }, <)
                                  IN IF Len(ps) # a.n THEN Assert(FALSE, "bad prime bound") ELSE Is(e.out, Z(1, NProd([i \in 1 .. a.n |-> NOf(ps[i])])))
    [] OTHER ->
       LET n == Mag(a.n) f == TLCEval(Facts(n, a.f)) IN
       CASE e.op = "euler_phi" -> Is(e.out, Z(1, FPhi(f)))
         [] e.op = "moebius_mu" -> Is(e.out, ZOf(FMu(f)))
         [] e.op = "divisor_sigma" -> IF a.k < 0 THEN Raises(e.out, "ValueError") ELSE Is(e.out, Z(1, FSigma(f, a.k)))
         [] e.op = "divisor_tau" -> Is(e.out, ZOf(FTau(f)))
         [] e.op = "carmichael_lambda" -> Is(e.out, Z(1, FLambda(f)))
=============================================================================
