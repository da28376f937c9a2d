------------------------------ MODULE ClassifyMC ------------------------------
(* The residue filter of the square test rejects no square (both tables, built
   as in the code, hold every quadratic residue), and the exponent search of the
   power test, as a transition system that divides out the smallest exponent
   again and again, ends with the primitive base and the maximal exponent.     *)
EXTENDS Primes
CONSTANTS X
VARIABLES n, base, exp, phase
vars == <<n, base, exp, phase>>
ASSUME { (k * k) % 64 : k \in 0 .. 31 } = { (k * k) % 64 : k \in 0 .. 63 }
ASSUME { (k * k) % 45045 : k \in 0 .. 22521 } = { (k * k) % 45045 : k \in 0 .. 45044 }
RECURSIVE Pw(_, _)
Pw(b, m) == IF m < b THEN 0 ELSE 1 + Pw(b, m \div b)          \* floor of the logarithm
Safe(b, k, m) == k <= Pw(b, m) /\ b ^ k = m
Exps(m) == { k \in 2 .. Pw(2, m) : \E b \in 2 .. Root(m) : Safe(b, k, m) }
MinOf(S) == CHOOSE k \in S : \A h \in S : k <= h
RootOf(m, k) == CHOOSE b \in 2 .. m : Safe(b, k, m)
Init == n \in 2 .. X /\ base = n /\ exp = 1 /\ phase = "search"
Next == /\ phase = "search" /\ UNCHANGED n
        /\ LET S == Exps(base) IN
           IF S = {} THEN phase' = "done" /\ UNCHANGED <<base, exp>>
           ELSE LET k == MinOf(S) IN base' = RootOf(base, k) /\ exp' = exp * k /\ UNCHANGED phase
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
PowerOf == exp <= Pw(base, n) /\ base ^ exp = n
Maximal == phase = "done" => /\ Exps(base) = {}
                             /\ \A k \in Exps(n) : exp % k = 0
                             /\ (Exps(n) = {} <=> exp = 1)
\* equivalently the gcd of the exponents of the factorization
ByFactorization == phase = "done" =>
  LET f == Factored(n) IN \A k \in 2 .. Pw(2, n) : (\A i \in DOMAIN f : f[i][2] % k = 0) <=> (exp % k = 0)
Terminates == <>(phase = "done")
=============================================================================
