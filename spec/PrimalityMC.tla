------------------------------ MODULE PrimalityMC ------------------------------
(* The strong test and the Lucas-Lehmer recurrence as transition systems on
   small numbers, with their loop invariants, and the theorems that justify
   judging them base by base: a prime has no witness, a composite has at most
   a quarter of strong liars, a strong liar is an Euler liar; and the
   certificate operators of Primes against trial division.                  *)
EXTENDS Primality
CONSTANT K
VARIABLES alg, i, s, res
vars == <<alg, i, s, res>>
RECURSIVE PM(_, _, _)
PM(a, k, m) == IF k = 0 THEN 1 % m ELSE IF k % 2 = 1 THEN (PM(a, k - 1, m) * a) % m ELSE LET h == PM(a, k \div 2, m) IN (h * h) % m
RECURSIVE Split(_)
Split(n) == IF n % 2 = 1 THEN <<0, n>> ELSE LET r == Split(n \div 2) IN <<r[1] + 1, r[2]>>
RECURSIVE P2(_)
P2(k) == IF k = 0 THEN 1 ELSE 2 * P2(k - 1)
Odd == { n \in 3 .. K : n % 2 = 1 }
Init == res = "?" /\
  \/ alg = "strong" /\ i \in { <<n, a>> \in Odd \X (1 .. K) : a < n } /\ s = <<0, PM(i[2], Split(i[1] - 1)[2], i[1])>>
  \/ alg = "lucas" /\ i \in { <<p, 0>> : p \in {3, 5, 7, 11, 13} } /\ s = <<1, 4 % (P2(i[1]) - 1)>>
Next == res = "?" /\ UNCHANGED <<alg, i>> /\
  IF alg = "strong"
  THEN LET n == i[1] st == Split(n - 1) IN
       IF s[2] = n - 1 \/ (s[1] = 0 /\ s[2] = 1) THEN res' = "pass" /\ UNCHANGED s
       ELSE IF s[1] + 1 < st[1] THEN s' = <<s[1] + 1, (s[2] * s[2]) % n>> /\ UNCHANGED res
       ELSE res' = "fail" /\ UNCHANGED s
  ELSE LET m == P2(i[1]) - 1 IN
       IF s[1] < i[1] - 1 THEN s' = <<s[1] + 1, (s[2] * s[2] + m - 2) % m>> /\ UNCHANGED res
       ELSE res' = (IF s[2] = 0 THEN "pass" ELSE "fail") /\ UNCHANGED s
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Invariant ==
  /\ alg = "strong" => s[2] = PM(i[2], Split(i[1] - 1)[2] * P2(s[1]), i[1])
  /\ (alg = "strong" /\ res # "?") => ((res = "pass") = StrongLiar(NOf(i[1]), NOf(i[2])))
  /\ (alg = "strong" /\ Prime(i[1])) => res # "fail"
  /\ (alg = "lucas" /\ res # "?") => (res = "pass") = Prime(P2(i[1]) - 1) /\ (res = "pass") = LucasLehmer(i[1])
Terminates == <>(res # "?")
Composites == { n \in Odd : ~Prime(n) }
Liars(n) == { a \in 1 .. n - 1 : StrongLiar(NOf(n), NOf(a)) }
ASSUME \A n \in Composites : 4 * Cardinality(Liars(n)) <= n - 1
ASSUME \A n \in Odd : \A a \in 1 .. n - 1 : StrongLiar(NOf(n), NOf(a)) => EulerLiar(NOf(n), NOf(a))
ASSUME \A n \in Composites : 2 * Cardinality({ a \in 1 .. n - 1 : EulerLiar(NOf(n), NOf(a)) }) <= n - 1
ASSUME \A n \in Odd : Prime(n) => \A a \in 1 .. n - 1 : EulerLiar(NOf(n), NOf(a))
ASSUME \A n \in 2 .. 20 * K : FactorSmall(n) = FactorSmall(n) /\ NProd([j \in DOMAIN FactorSmall(n) |-> NOf(FactorSmall(n)[j])]) = NOf(n)
                              /\ \A j \in DOMAIN FactorSmall(n) : Prime(FactorSmall(n)[j])
ASSUME \A n \in 2 .. 20 * K : Prime(n) = (\A d \in 2 .. n - 1 : n % d # 0)
\* a Pratt certificate for 1000003 is accepted and the primes it establishes include it
ASSUME <<3, 0, 1>> \in Certified(<< << <<1, 3, 0, 1>>, <<1, 2>>, << <<<<1, 2>>, 1>>, <<<<1, 3>>, 1>>, <<<<1, 667, 166>>, 1>> >> >> >>)
=============================================================================
