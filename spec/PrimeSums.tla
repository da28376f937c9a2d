------------------------------- MODULE PrimeSums -------------------------------
(* Sums of k-th powers of the primes up to x (k = 0, 1, 2), by the process
   "remove the multiples of one prime after the other": the state holds for
   every v = floor(x / i) the sum over the n in 2 .. v that are prime or have
   no prime factor among the primes processed so far.  PrimeSumsMC checks this
   invariant and the final value against the definition; here the steps are
   folded, so that pi(x) is available to trace specifications for x < 2^30.  *)
EXTENDS Primes
\* 1 + 2^k + ... + v^k - 1 modulo m
PowerSum(v, k, m) ==
  LET a == IF v % 2 = 0 THEN v \div 2 ELSE v
      b == IF v % 2 = 0 THEN v + 1 ELSE (v + 1) \div 2
  IN (IF k = 0 THEN v - 1
      ELSE IF k = 1 THEN (a % m) * (b % m) + (m - 1)
      ELSE LET c == 2 * v + 1
               d == IF a % 3 = 0 THEN <<a \div 3, b, c>> ELSE IF b % 3 = 0 THEN <<a, b \div 3, c>> ELSE <<a, b, c \div 3>>
           IN (((d[1] % m) * (d[2] % m)) % m) * (d[3] % m) + (m - 1)) % m
Weight(p, k, m) == IF k = 0 THEN 1 ELSE IF k = 1 THEN p % m ELSE (p * p) % m
SumsStart(x, k, m) ==          \* <<values at 1 .. r, values at x div 1 .. x div r>>
  LET r == Root(x) IN << [v \in 1 .. r |-> PowerSum(v, k, m)], [j \in 1 .. r |-> PowerSum(x \div j, k, m)] >>
SumsStep(st, x, k, m, p) ==
  LET r == Len(st[1])
      lo == st[1] hi == st[2]
      before == lo[p - 1]
      w == Weight(p, k, m)
      cut == LET q == x \div (p * p) IN IF q < r THEN q ELSE r
      Val(i) == IF i * p <= r THEN hi[i * p] ELSE lo[x \div (i * p)]
      hi2 == TLCEval([i \in 1 .. cut |-> (hi[i] - w * (((Val(i) - before) + m) % m)) % m]) \o SubSeq(hi, cut + 1, r)
      lo2 == IF p * p > r THEN lo
             ELSE SubSeq(lo, 1, p * p - 1) \o TLCEval([j \in 1 .. (r - p * p) + 1 |->
                    LET v == (p * p + j) - 1 IN (lo[v] - w * (((lo[v \div p] - before) + m) % m)) % m])
  IN <<lo2, hi2>>
\* all values floor(x / i) at once; counts need no reduction, m = 2^30 there
SumsAll(x, k, m) == FoldLeft(LAMBDA st, p : IF st[1][p] = st[1][p - 1] THEN st ELSE TLCEval(SumsStep(st, x, k, m, p)),
                             TLCEval(SumsStart(x, k, m)), [i \in 1 .. Root(x) - 1 |-> i + 1])
Top == 1073741824
PrimePi(x) == IF x < 2 THEN 0 ELSE SumsAll(x, 0, Top)[2][1]
PrimePowerSum(x, k, m) == IF x < 2 THEN 0 ELSE SumsAll(x, k, m)[2][1]
Moduli == <<46337, 46327, 46309>>      \* primes below sqrt(2^31)
\* the natural z is the sum of the primes up to x < 2^30
IsPrimeSum(z, x) == Len(z) <= 6 /\ \A i \in 1 .. 3 : NModSmall(z, Moduli[i]) = PrimePowerSum(x, 1, Moduli[i])
                    /\ NLe(z, NProd(<<NOf(46337), NOf(46327), NOf(40000)>>))
\* the primes up to n, by definition, for small n
PrimesTo(n) == SelectSeq([i \in 1 .. (IF n < 1 THEN 0 ELSE n) |-> i], Prime)
=============================================================================
