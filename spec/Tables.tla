-------------------------------- MODULE Tables --------------------------------
(* N10: tables, ranges and summatory functions against the single values.     *)
EXTENDS ArithFun, Judge
Top == 12100
\* factorizations of the small numbers, computed once into a register
ASSUME TLCSet(101, TLCEval([i \in 1 .. Top |-> TLCEval(Factored(i))]))
Fac == TLCGet(101)
\* prefix sums of the definitions modulo the first modulus, for the small arguments
ValueAt(op, k, fac, i) ==
  CASE op \in {"euler_phi_list", "totient_list"} -> SPhi(fac[i])
    [] op = "moebius_list" -> FMu(fac[i])
    [] op = "tau_list" -> FTau(fac[i])
    [] op = "sigma_list" -> SSigma1(fac[i])
ModSums(n, F(_)) == [j \in 1 .. 5 |-> F(Moduli[j])]
Within(v, n) == IF Sgn(v) < 0 THEN NLe(Mag(v), NOf(n)) ELSE NLt(Mag(v), NPow(NOf(n + 1), 3))
TablesVerdict(e) ==
  LET a == e.in n == a.n IN
  CASE e.op \in {"euler_phi_list", "totient_list", "moebius_list", "tau_list", "sigma_list"} /\ a.k = 1 ->
         IF n < 1 THEN Raises(e.out, "ValueError")
         ELSE LET fac == Fac IN Ret(e.out, LAMBDA v : FirstBad(<<Cl("length", Len(v) = n + 1), Cl("zero", v[1] = 0),
                                         Cl("entry", \A i \in 1 .. n : v[i + 1] = ValueAt(e.op, 1, fac, i))>>))
    [] e.op = "sigma_list" ->      \* k # 1, big entries
         IF n < 1 \/ a.k < 0 THEN Raises(e.out, "ValueError")
         ELSE LET fac == Fac IN Ret(e.out, LAMBDA v : FirstBad(<<Cl("length", Len(v) = n + 1), Cl("zero", v[1] = <<0>>),
                                         Cl("entry", \A i \in 1 .. n : v[i + 1] = Z(1, FSigma(Bigs(fac[i]), a.k)))>>))
    [] e.op = "moebius_range" ->
         LET lo == IF Len(a.b) = 0 \/ n < 2 THEN 1 ELSE n hi == IF Len(a.b) = 0 THEN n ELSE a.b[1]
             fac == Fac
             F(i) == IF i <= Top THEN fac[i] ELSE Factored(i)
         IN Is(e.out, [i \in 1 .. (IF hi > lo THEN hi - lo ELSE 0) |-> <<lo + i - 1, FMu(F(lo + i - 1))>>])
    [] e.op = "far_moebius" ->
         Is(e.out, [i \in DOMAIN a.fs |-> LET m == NAdd(Mag(a.a), NOf(i - 1)) IN <<Z(1, m), FMu(Facts(m, a.fs[i]))>>])
    [] e.op \in {"moebius_sum", "mertens", "euler_phi_sum", "totient_sum", "euler_phi_weighted_sum", "sigma_sum"} ->
         IF n < 1 THEN Raises(e.out, "ValueError")
         ELSE Ret(e.out, LAMBDA v : FirstBad(<<
                Cl("bounds", Within(v, n)),
                Cl("value", Residues(v) = ModSums(n, LAMBDA m :
                     CASE e.op \in {"moebius_sum", "mertens"} -> MuSumMod(n, m)
                       [] e.op \in {"euler_phi_sum", "totient_sum"} -> PhiSumMod(n, m)
                       [] e.op = "euler_phi_weighted_sum" -> WPhiSumMod(n, m)
                       [] OTHER -> SigmaSumMod(n, m)))>>))
=============================================================================
