------------------------------- MODULE Primality -------------------------------
(* N04: primality tests.  Primality is decided by the certificates of Primes;
   the single-base tests are specified exactly, base by base.                *)
EXTENDS Primes, Judge
Half(n) == NDivSmall(n, 2)[1]
RECURSIVE OddPart(_)           \* <<s, t>> with n = 2^s t
OddPart(n) == IF NModSmall(n, 2) = 1 THEN <<0, n>> ELSE LET r == OddPart(Half(n)) IN <<r[1] + 1, r[2]>>
\* n odd >= 3: a is no witness against n
StrongLiar(n, a) ==
  LET n1 == NSub(n, <<1>>) st == OddPart(n1) b == TLCEval(NPowMod(a, st[2], n))
      RECURSIVE Hit(_, _)
      Hit(x, k) == k > 0 /\ (x = n1 \/ Hit(TLCEval(NMulMod(x, x, n)), k - 1))
  IN b = <<1>> \/ Hit(b, st[1])
\* Jacobi symbol by the reciprocity loop, n odd
RECURSIVE Jac(_, _, _)
Jac(a, n, t) ==
  IF a = <<>> THEN (IF n = <<1>> THEN t ELSE 0)
  ELSE IF NModSmall(a, 2) = 0 THEN Jac(Half(a), n, IF NModSmall(n, 8) \in {3, 5} THEN -t ELSE t)
  ELSE Jac(TLCEval(NMod(n, a)), a, IF NModSmall(a, 4) = 3 /\ NModSmall(n, 4) = 3 THEN -t ELSE t)
EulerLiar(n, a) ==
  LET j == Jac(NMod(a, n), n, 1) e == TLCEval(NPowMod(a, Half(NSub(n, <<1>>)), n))
  IN \/ j = 1 /\ e = <<1>>
     \/ j = -1 /\ e = NSub(n, <<1>>)
\* the smallest composite passing the strong test for all bases up to 41
Psi == <<981, 961, 385, 887, 679, 64, 44, 317, 3>>

\* Lucas-Lehmer recurrence modulo the Mersenne number
LucasLehmer(p) == LET m == NSub(NPow(<<2>>, p), <<1>>)
                  IN FoldLeft(LAMBDA v, i : TLCEval(NMod(NAdd(NMul(v, v), NSub(m, <<2>>)), m)), <<4>>, [i \in 1 .. p - 2 |-> i]) = <<>>

PrimalityVerdict(e) ==
  LET a == e.in
      prime == DecidePrime(Mag(a.n), a.c)
  IN
  CASE e.op \in {"is_prime", "miller_rabin_deterministic"} ->
         Is(e.out, Sgn(a.n) > 0 /\ prime)
    [] e.op = "is_probable_prime" ->      \* n > 1
         Ret(e.out, LAMBDA v : FirstBad(<<Cl("rejects-prime", prime => v),
                                          Cl("accepts-composite", (~prime /\ NLt(Mag(a.n), Psi)) => ~v)>>))
    [] e.op = "miller_rabin" -> Is(e.out, StrongLiar(Mag(a.n), Mag(a.a)))
    [] e.op = "solovay_strassen" -> Is(e.out, EulerLiar(Mag(a.n), Mag(a.a)))
    [] e.op \in {"random_base_miller_rabin", "random_base_solovay_strassen"} -> Cl("rejects-prime", prime => e.out = [k |-> "ret", v |-> TRUE])
    [] e.op = "lucas_lehmer" ->
         Is(e.out, IF a.known THEN DecidePrime(NSub(NPow(<<2>>, a.p), <<1>>), a.mc) ELSE LucasLehmer(a.p))
    [] e.op \in {"next_prime", "next_probable_prime"} ->     \* q: the next prime, gaps: divisors of the numbers between
         LET q == Mag(a.q) n1 == IF Sgn(a.n) < 1 THEN <<2>> ELSE NAdd(Mag(a.n), <<1>>) k == Len(a.gaps)
         IN IF /\ IsPrimeBy(q, a.pratt) /\ (IF NLt(n1, <<2>>) THEN <<2>> ELSE n1) = NSub(q, NOf(k))
               /\ \A i \in 1 .. k : LET m == NSub(q, NOf(i)) d == Mag(a.gaps[i]) IN NLt(<<1>>, d) /\ NLt(d, m) /\ NMod(m, d) = <<>>
            THEN Is(e.out, Z(1, q)) ELSE Assert(FALSE, "bad gap certificate")
    [] e.op = "random_prime" ->           \* small bounds
         Ret(e.out, LAMBDA v : FirstBad(<<Cl("range", a.lo <= v /\ v <= a.hi), Cl("composite", Prime(v))>>))
=============================================================================
