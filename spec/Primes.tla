-------------------------------- MODULE Primes --------------------------------
(* Primality and factorizations as checkable facts.  Primes below 2^20 are
   recognised by trial division; a larger prime comes with a Pratt certificate
   (prerequisites first) and a factorization with the certificates of its
   primes.  A certificate is part of the test input, not of the code's answer,
   so one that does not check stops the run.                                  *)
EXTENDS Big
Root(n) == LET RECURSIVE F(_) F(x) == LET y == (x + n \div x) \div 2 IN IF y >= x THEN x ELSE F(y)
           IN IF n < 2 THEN n ELSE F(IF n > 65535 THEN 65536 ELSE n)
Prime(n) == n >= 2 /\ (n = 2 \/ n % 2 = 1) /\ \A i \in 1 .. (Root(n) - 1) \div 2 : n % (2 * i + 1) # 0
\* smallest prime factor of n >= 2
Spf(n) == IF n % 2 = 0 THEN 2 ELSE IF \E i \in 1 .. (Root(n) - 1) \div 2 : n % (2 * i + 1) = 0
          THEN 2 * (CHOOSE i \in 1 .. (Root(n) - 1) \div 2 : n % (2 * i + 1) = 0) + 1 ELSE n
RECURSIVE FactorSmall(_)       \* prime factors with repetition, increasing
FactorSmall(n) == IF n < 2 THEN <<>> ELSE LET p == Spf(n) IN <<p>> \o FactorSmall(n \div p)
RECURSIVE Pairs(_)             \* [[p, e]...] of a sorted sequence of primes
Pairs(s) == IF s = <<>> THEN <<>>
            ELSE LET k == Cardinality({ i \in DOMAIN s : s[i] = s[1] }) IN <<<<s[1], k>>>> \o Pairs(SubSeq(s, k + 1, Len(s)))
Factored(n) == Pairs(FactorSmall(n))

\* certificates
TrialPrime(n) == Len(n) <= 3 /\ NVal(n) < 1048576 /\ Prime(NVal(n))
PrattEntry(known, e) ==        \* known: the primes already certified
  LET p == Mag(e[1]) g == Mag(e[2]) p1 == NSub(p, <<1>>)
  IN /\ NProd([i \in DOMAIN e[3] |-> NPow(Mag(e[3][i][1]), e[3][i][2])]) = p1
     /\ \A i \in DOMAIN e[3] : LET q == Mag(e[3][i][1]) IN
           /\ q \in known \/ TrialPrime(q)
           /\ NPowMod(g, NDiv(p1, q), p) # <<1>>
     /\ NPowMod(g, p1, p) = <<1>>
RECURSIVE Certified(_)
Certified(cert) ==             \* the set of primes a certificate list establishes
  IF cert = <<>> THEN {}
  ELSE LET n == Len(cert) known == Certified(SubSeq(cert, 1, n - 1))
       IN IF PrattEntry(known, cert[n]) THEN known \cup {Mag(cert[n][1])} ELSE Assert(FALSE, "bad Pratt certificate")
IsPrimeBy(n, cert) == TrialPrime(n) \/ n \in Certified(cert)
\* a number n >= 2 is prime or not, decided by c = [d, pratt]: a divisor (n itself when prime) and a certificate
DecidePrime(n, c) ==
  IF NLt(n, <<2>>) THEN FALSE
  ELSE IF Mag(c.d) = n THEN (IF IsPrimeBy(n, c.pratt) THEN TRUE ELSE Assert(FALSE, "bad primality certificate"))
  ELSE IF NLt(<<1>>, Mag(c.d)) /\ NLt(Mag(c.d), n) /\ NMod(n, Mag(c.d)) = <<>> THEN FALSE
  ELSE Assert(FALSE, "bad divisor certificate")
\* f = [fs, pratt] is a factorization of n, as a sequence of <<prime, exponent>>
Facts(n, f) ==
  LET ps == [i \in DOMAIN f.fs |-> Mag(f.fs[i][1])]
      known == Certified(f.pratt)
  IN IF /\ \A i \in DOMAIN ps : ps[i] \in known \/ TrialPrime(ps[i])
        /\ \A i \in 1 .. Len(ps) - 1 : NLt(ps[i], ps[i + 1])
        /\ \A i \in DOMAIN ps : f.fs[i][2] >= 1
        /\ NProd([i \in DOMAIN ps |-> NPow(ps[i], f.fs[i][2])]) = n
     THEN [i \in DOMAIN ps |-> <<ps[i], f.fs[i][2]>>]
     ELSE Assert(FALSE, "bad factorization certificate")
=============================================================================
