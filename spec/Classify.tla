------------------------------- MODULE Classify -------------------------------
(* N14: classification of integers.  A number n >= 2 comes with its primitive
   root decomposition n = b^k; that b is no perfect power is established by
   exact brackets r^q < b < (r+1)^q for every prime exponent q that could occur.
   Like all certificates these belong to the input and stop the run if wrong.  *)
EXTENDS Primes, Judge
Exps(L) == SetToSortSeq({ q \in 2 .. L : Prime(q) }, <)
Primitive(b, c) ==       \* c = [L, rs]
  LET qs == Exps(c.L) IN
  /\ NLt(<<1>>, b) /\ NLt(b, NPow(<<2>>, c.L + 1)) /\ Len(c.rs) = Len(qs)
  /\ \A i \in DOMAIN qs : LET r == Mag(c.rs[i]) IN NLt(NPow(r, qs[i]), b) /\ NLt(b, NPow(NAdd(r, <<1>>), qs[i]))
Decomposed(n, c) ==      \* <<b, k>>
  LET b == Mag(c.b) IN IF NPow(b, c.k) = n /\ c.k >= 1 /\ Primitive(b, c) THEN <<b, c.k>> ELSE Assert(FALSE, "bad power certificate")
RECURSIVE FactorialIs(_, _, _)
FactorialIs(n, p, k) == IF ~NLt(p, n) THEN p = n ELSE FactorialIs(n, TLCEval(NScale(p, k)), k + 1)
ClassifyVerdict(e) ==
  LET a == e.in IN
  CASE e.op = "is_squarefree" ->
         IF Sgn(a.n) < 1 THEN Raises(e.out, "ValueError")
         ELSE LET f == Facts(Mag(a.n), a.f) IN Is(e.out, \A i \in DOMAIN f : f[i][2] = 1)
    [] e.op = "is_factorial" -> Is(e.out, Sgn(a.n) > 0 /\ FactorialIs(Mag(a.n), <<1>>, 2))
    [] e.op = "is_square" ->      \* <<>> stands for False
         IF Sgn(a.n) < 0 THEN Is(e.out, <<>>)
         ELSE LET r == Mag(a.r) IN
              IF NLt(Mag(a.n), NMul(r, r)) \/ ~NLt(Mag(a.n), NMul(NAdd(r, <<1>>), NAdd(r, <<1>>))) THEN Assert(FALSE, "bad root certificate")
              ELSE Is(e.out, IF NMul(r, r) = Mag(a.n) THEN Z(1, r) ELSE <<>>)
    [] e.op \in {"is_power", "is_power2"} ->
         IF Sgn(a.n) < 1 \/ (Len(a.k) = 1 /\ a.k[1] < 1) THEN Raises(e.out, "ValueError")
         ELSE IF Mag(a.n) = <<1>> THEN Is(e.out, IF Len(a.k) = 1 THEN <<<<1, 1>>, a.k[1]>> ELSE <<>>)
         ELSE LET d == Decomposed(Mag(a.n), a.c) IN
              IF e.op = "is_power2" THEN
                Ret(e.out, LAMBDA v : IF d[2] = 1 THEN Cl("not-a-power", v = <<>>)
                                      ELSE Cl("witness", v # <<>> /\ v[2] >= 2 /\ d[2] % v[2] = 0 /\ v[1] = Z(1, NPow(d[1], d[2] \div v[2]))))
              ELSE IF Len(a.k) = 0 THEN Is(e.out, IF d[2] = 1 THEN <<>> ELSE <<Z(1, d[1]), d[2]>>)
              ELSE Is(e.out, IF d[2] % a.k[1] = 0 THEN <<Z(1, NPow(d[1], d[2] \div a.k[1])), a.k[1]>> ELSE <<>>)
=============================================================================
