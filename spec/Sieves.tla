-------------------------------- MODULE Sieves --------------------------------
(* N05: lists and ranges of primes.  Short lists are compared with the
   definition.  A long list is recorded as its length, the sums of its
   elements and of their squares modulo a prime, whether it increases, and its
   end; pi and the power sums of PrimeSums pin these down at every limit.
   Windows above 10^7 come with a certificate for every number in them.      *)
EXTENDS PrimeSums, Judge
M1 == 46337
PrimesBetween(a, b) == SelectSeq([i \in 1 .. (IF b > a THEN b - a ELSE 0) |-> (a + i) - 1], Prime)     \* [a, b)
\* summary [length, sum, sum of squares, increasing, first elements, last elements] of the primes in (lo, hi]
Summary(v, lo, hi) ==
  LET n == PrimePi(hi) - PrimePi(lo)
      D(k) == (PrimePowerSum(hi, k, M1) - PrimePowerSum(lo, k, M1)) % M1
  IN FirstBad(<<
     Cl("increasing", v[4]),
     Cl("head", v[5] = <<>> \/ v[5] = SelectSeq([i \in 1 .. v[5][Len(v[5])] - lo |-> lo + i], Prime)),
     Cl("tail", v[6] = <<>> \/ v[6] = SelectSeq([i \in 1 .. (hi - v[6][1]) + 1 |-> (v[6][1] + i) - 1], Prime)),
     Cl("length", v[1] = n),
     Cl("sum", v[2] = D(1)),
     Cl("squares", v[3] = D(2))>>)
Limits == {"primes", "eratosthenes1", "eratosthenes2", "luo", "chartres", "pritchard"}
SievesVerdict(e) ==
  LET a == e.in IN
  CASE e.op \in Limits -> Is(e.out, PrimesTo(a.n))
    [] e.op \in {"primes_large", "eratosthenes1_large", "eratosthenes2_large", "luo_large", "chartres_large", "pritchard_large"} ->
         Ret(e.out, LAMBDA v : Summary(v, 0, a.n))
    [] e.op = "primes_first_n" -> Ret(e.out, LAMBDA v : Cl("value", Len(v) = (IF a.n < 0 THEN 0 ELSE a.n) /\ (v # <<>> => v = PrimesTo(v[Len(v)]))))
    [] e.op = "primes_first_n_large" ->
         Ret(e.out, LAMBDA v : FirstBad(<<Cl("length", v[1] = a.n), Summary(v, 0, v[6][Len(v[6])])>>))
    [] e.op = "prime_range" -> Is(e.out, PrimesBetween(a.a, a.b))
    [] e.op = "prime_range_upto" -> Is(e.out, PrimesBetween(1, a.b))
    [] e.op = "prime_range_large" -> Ret(e.out, LAMBDA v : Summary(v, a.a - 1, a.b - 1))
    [] e.op = "prime_range_head" ->     \* the first elements of a long range
         Ret(e.out, LAMBDA v : Cl("value", v = PrimesBetween(a.a, v[Len(v)] + 1) /\ Len(v) = a.k))
    [] e.op = "prime_range_interleaved" ->  \* two generators advanced alternately
         Ret(e.out, LAMBDA v : FirstBad([i \in 1 .. 2 |-> Cl("value", Len(v[i]) = a.k /\ v[i] = PrimesBetween(a.r[i][1], v[i][Len(v[i])] + 1))]))
    [] e.op = "prime_range_window" ->   \* [a, b) above the table, every number certified
         LET s == Mag(a.a)
             nums == [i \in 1 .. Len(a.cs) |-> NAdd(s, NOf(i - 1))]
             want == SelectSeq([i \in 1 .. Len(a.cs) |-> i], LAMBDA i : DecidePrime(nums[i], a.cs[i]))
         IN Is(e.out, [j \in 1 .. Len(want) |-> Z(1, nums[want[j]])])
=============================================================================
