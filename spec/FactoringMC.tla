------------------------------ MODULE FactoringMC ------------------------------
(* The factoring loops as transition systems over every small input.
   fermat: a runs upwards from ceil(sqrt(n)), a^2 - n is tested for squareness;
   lehman: for every multiplier k the window [4kn, 4kn + B^2] is searched in the
     residue class of a; the theorem that some (k, a) succeeds unless n is prime
     (or a cube-root-sized factor was divided out) is checked for each n <= X;
   rho: the tortoise and hare walk, every start and every additive constant;
   work: factor()'s work list, where any divisor found by the black box may be
     taken next.  Each returns a divisor, proves primality or goes on.        *)
EXTENDS Primes
CONSTANTS X, XR
VARIABLES alg, n, s, out
vars == <<alg, n, s, out>>
IsSquare(x) == LET r == Root(x) IN r * r = x
CubeRoot(x) == CHOOSE r \in 0 .. 1000 : r * r * r <= x /\ (r + 1) * (r + 1) * (r + 1) > x
CeilRoot(x) == LET r == Root(x) IN IF r * r = x THEN r ELSE r + 1
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Abs(a) == IF a < 0 THEN -a ELSE a
Bd == IF CubeRoot(n) < 2 THEN 2 ELSE CubeRoot(n)
\* lehman's first a for a multiplier
First(k) == LET a0 == CeilRoot(4 * k * n) m == IF k % 2 = 0 THEN 2 ELSE 4 r == IF k % 2 = 0 THEN 1 ELSE (k + n) % 4
            IN CHOOSE a \in a0 .. a0 + 3 : a % m = r /\ \A b \in a0 .. a - 1 : b % m # r
Init == out = 0 /\
  \/ alg = "fermat" /\ n \in { x \in 3 .. X : x % 2 = 1 } /\ s = <<CeilRoot(n)>>
  \/ alg = "lehman" /\ n \in { x \in 2 .. X : \A d \in 2 .. (IF CubeRoot(x) < 2 THEN 2 ELSE CubeRoot(x)) : x % d # 0 \/ d = x } /\ s = <<1, First(1)>>
  \/ alg = "rho" /\ n \in { x \in 4 .. XR : ~Prime(x) } /\ \E a \in 1 .. n - 3, u \in 0 .. n - 1 : s = <<a, u, u>>
  \/ alg = "work" /\ n \in 1 .. X /\ s = <<n, <<>>>>
Fermat == alg = "fermat" /\ LET a == s[1] t == a * a - n b == Root(t) IN
  IF b * b = t /\ a - b > 1 THEN out' = a - b /\ UNCHANGED <<alg, n, s>>
  ELSE IF a >= (n + 9) \div 6 THEN out' = n /\ UNCHANGED <<alg, n, s>>
  ELSE s' = <<a + 1>> /\ UNCHANGED <<alg, n, out>>
Lehman == alg = "lehman" /\ LET k == s[1] a == s[2] c == a * a - 4 * k * n IN
  IF k > Bd THEN out' = n /\ UNCHANGED <<alg, n, s>>
  ELSE IF c > Bd * Bd THEN s' = <<k + 1, First(k + 1)>> /\ UNCHANGED <<alg, n, out>>
  ELSE IF IsSquare(c) THEN out' = Gcd(a + Root(c), n) /\ UNCHANGED <<alg, n, s>>
  ELSE s' = <<k, a + (IF k % 2 = 0 THEN 2 ELSE 4)>> /\ UNCHANGED <<alg, n, out>>
F(x) == (x * x + s[1]) % n
Rho == alg = "rho" /\ LET u == F(s[2]) v == F(F(s[3])) d == Gcd(Abs(u - v), n) IN
  IF d > 1 THEN out' = d /\ UNCHANGED <<alg, n, s>> ELSE s' = <<s[1], u, v>> /\ UNCHANGED <<alg, n, out>>
\* what is left and the prime powers found; a prime p is taken with its full multiplicity
RECURSIVE Strip(_, _)
Strip(m, p) == IF m % p = 0 THEN Strip(m \div p, p) ELSE m
Work == alg = "work" /\ s[1] > 1 /\ \E p \in { q \in 2 .. s[1] : s[1] % q = 0 /\ Prime(q) } :
  s' = <<Strip(s[1], p), Append(s[2], <<p, s[1] \div Strip(s[1], p)>>)>> /\ UNCHANGED <<alg, n, out>>
Next == out = 0 /\ (Fermat \/ Lehman \/ Rho \/ Work)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Divisor == out # 0 => out > 1 /\ n % out = 0
ProperOrPrime == (out # 0 /\ alg \in {"fermat", "lehman"}) => (out = n <=> Prime(n))
\* nothing was skipped: the searched window of a multiplier holds no missed solution
WorkProduct == alg = "work" => s[1] * FoldLeft(LAMBDA x, y : x * y[2], 1, s[2]) = n
WorkDistinct == alg = "work" => \A i, j \in DOMAIN s[2] : i # j => s[2][i][1] # s[2][j][1]
Done == (alg = "work" /\ s[1] = 1) \/ (alg # "work" /\ out # 0)
Terminates == <>Done
=============================================================================
