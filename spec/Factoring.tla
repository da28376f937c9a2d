------------------------------- MODULE Factoring -------------------------------
(* N07: complete factorizations (unique, so compared with a certified one),
   and the contracts of the single factoring algorithms.                     *)
EXTENDS Primes, Judge
Proper(d, n) == Sgn(d) > 0 /\ NLt(<<1>>, Mag(d)) /\ NLt(Mag(d), n) /\ NMod(n, Mag(d)) = <<>>
DivisorOf(d, n) == Sgn(d) > 0 /\ NMod(n, Mag(d)) = <<>>
IsPrimeFact(f) == Len(f) = 1 /\ f[1][2] = 1
FactoringVerdict(e) ==
  LET a == e.in n == Mag(a.n) IN
  CASE e.op = "factor" ->
         IF n = <<>> THEN Raises(e.out, "ValueError")
         ELSE LET f == Facts(n, a.f)
                  want == [i \in DOMAIN f |-> <<Z(1, f[i][1]), f[i][2]>>]
              IN Ret(e.out, LAMBDA v :
                   IF Sgn(a.n) > 0 THEN Cl("value", v = want)
                   ELSE FirstBad(<<Cl("sign", v # <<>> /\ v[1][1] = <<-1, 1>> /\ v[1][2] % 2 = 1),
                                   Cl("value", Tail(v) = want)>>))
    [] e.op = "factor_back" -> Is(e.out, a.n)
    [] e.op = "trial_division" ->
         LET f == Facts(n, a.f) p == f[1][1]
         IN Is(e.out, IF Len(a.bound) = 0 \/ ZLe(Z(1, p), a.bound) THEN Z(1, p) ELSE a.n)
    [] e.op \in {"fermat", "lehman"} ->
         IF IsPrimeFact(Facts(n, a.f)) THEN Is(e.out, a.n)
         ELSE Ret(e.out, LAMBDA d : Cl("not-a-proper-divisor", Proper(d, n)))
    [] e.op \in {"pollard_rho", "pollard_rho_brent"} ->
         Ret(e.out, LAMBDA d : FirstBad(<<Cl("not-a-divisor", DivisorOf(d, n)), Cl("trivial", d # <<1, 1>>)>>))
    [] e.op \in {"pollard_p_minus_1", "pollard_rho_limited"} -> Ret(e.out, LAMBDA d : Cl("not-a-divisor", DivisorOf(d, n)))
    [] e.op = "cfrac" ->      \* <<>> stands for no result
         Ret(e.out, LAMBDA d : Cl("not-a-proper-divisor", d = <<>> \/ Proper(d, n)))
    [] e.op = "smooth_factor" ->
         LET unit == Sgn(a.n) < 0
             odd == [i \in DOMAIN a.base |-> IF a.base[i] = -1 THEN 0 ELSE 1]
             rest == FoldLeft(LAMBDA m, q : IF q = -1 THEN m ELSE
                                LET RECURSIVE Strip(_) Strip(x) == IF NModSmall(x, q) = 0 THEN Strip(TLCEval(NDivSmall(x, q)[1])) ELSE x IN Strip(m), n, a.base)
         IN IF rest # <<1>> \/ (unit /\ \A i \in DOMAIN a.base : a.base[i] # -1) THEN Raises(e.out, "ValueError")
            ELSE Ret(e.out, LAMBDA v : FirstBad(<<
                   Cl("length", Len(v) = Len(a.base)),
                   Cl("sign", \A i \in DOMAIN a.base : a.base[i] = -1 => v[i] = (IF unit THEN 1 ELSE 0)),
                   Cl("product", /\ \A i \in DOMAIN v : v[i] >= 0
                                 /\ NProd([i \in DOMAIN v |-> IF a.base[i] = -1 THEN <<1>> ELSE NPow(NOf(a.base[i]), v[i])]) = n)>>))
=============================================================================
