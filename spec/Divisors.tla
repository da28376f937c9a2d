------------------------------- MODULE Divisors -------------------------------
(* N08: divisor listings.  A list of distinct divisors is complete exactly when
   it has as many members as the formula over the certified factorization says;
   DivisorsMC checks these formulas against the definitions.                  *)
EXTENDS Primes, Judge
Mags(v) == [i \in DOMAIN v |-> Mag(v[i])]
Increasing(s) == \A i \in 1 .. Len(s) - 1 : NLt(s[i], s[i + 1])
Pos(v) == \A i \in DOMAIN v : Sgn(v[i]) = 1
Tau(f) == FoldLeft(LAMBDA t, pe : t * (pe[2] + 1), 1, f)
Two(k) == FoldLeft(LAMBDA t, i : 2 * t, 1, [i \in 1 .. k |-> i])
\* d's exponents over the primes of f, or <<>> when d does not divide the number
Exps(d, f) == [i \in DOMAIN f |-> LET RECURSIVE E(_, _)
                                     E(x, k) == LET r == NDivMod(x, f[i][1]) IN IF r[2] = <<>> /\ k <= f[i][2] THEN E(TLCEval(r[1]), k + 1) ELSE k
                                 IN E(d, 0)]
UnitaryOf(d, f) == LET x == Exps(d, f) IN \A i \in DOMAIN f : x[i] \in {0, f[i][2]}
DivisorsVerdict(e) ==
  LET a == e.in IN
  IF e.op = "factored_range" THEN
    LET lo == IF Len(a.b) = 0 THEN 1 ELSE IF a.a < 2 THEN 1 ELSE a.a
        hi == IF Len(a.b) = 0 THEN a.a ELSE a.b[1]
    IN Ret(e.out, LAMBDA v : FirstBad(<<
         Cl("numbers", [i \in DOMAIN v |-> v[i][1]] = [i \in 1 .. (IF hi > lo THEN hi - lo ELSE 0) |-> lo + i - 1]),
         Cl("factorization", \A i \in DOMAIN v : v[i][2] = Factored(v[i][1]) \/ (v[i][1] = 1 /\ v[i][2] = <<<<1, 1>>>>))>>))
  ELSE IF e.op = "far_range" THEN
    Ret(e.out, LAMBDA v : FirstBad(<<
         Cl("numbers", [i \in DOMAIN v |-> v[i][1]] = [i \in DOMAIN a.fs |-> Z(1, NAdd(Mag(a.a), NOf(i - 1)))]),
         Cl("factorization", \A i \in DOMAIN v : v[i][2] = [j \in DOMAIN a.fs[i].fs |-> LET g == Facts(Mag(v[i][1]), a.fs[i]) IN <<Z(1, g[j][1]), g[j][2]>>])>>))
  ELSE
  LET n == Mag(a.n) f == Facts(n, a.f)
      Divides(s) == \A i \in DOMAIN s : NMod(n, s[i]) = <<>>
  IN
  CASE e.op = "divisors" ->
         Ret(e.out, LAMBDA v : LET s == Mags(v) IN FirstBad(<<Cl("order", Pos(v) /\ Increasing(s)), Cl("divides", Divides(s)), Cl("count", Len(s) = Tau(f))>>))
    [] e.op = "xdivisors" ->
         Ret(e.out, LAMBDA v : LET s == Mags(v) IN FirstBad(<<Cl("distinct", Pos(v) /\ Cardinality(ToSet(s)) = Len(s)), Cl("divides", Divides(s)), Cl("count", Len(s) = Tau(f))>>))
    [] e.op = "unitary_divisors" ->
         Ret(e.out, LAMBDA v : LET s == Mags(v) IN FirstBad(<<Cl("order", Pos(v) /\ Increasing(s)), Cl("divides", Divides(s)),
                                  Cl("unitary", \A i \in DOMAIN s : UnitaryOf(s[i], f)), Cl("count", Len(s) = Two(Len(f)))>>))
    [] e.op = "prime_divisors" -> Is(e.out, [i \in DOMAIN f |-> Z(1, f[i][1])])
    [] e.op = "divisor_pairs" ->
         Ret(e.out, LAMBDA v : LET s == [i \in DOMAIN v |-> Mag(v[i][1])] t == [i \in DOMAIN v |-> Mag(v[i][2])]
                               IN FirstBad(<<Cl("order", Increasing(s)),
                                             Cl("product", \A i \in DOMAIN v : Sgn(v[i][1]) = 1 /\ Sgn(v[i][2]) = 1 /\ NMul(s[i], t[i]) = n /\ ~NLt(t[i], s[i])),
                                             Cl("count", Len(v) = (Tau(f) + 1) \div 2)>>))
    [] e.op = "none" -> Raises(e.out, "TypeError")
=============================================================================
