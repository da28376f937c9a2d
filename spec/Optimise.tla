-------------------------------- MODULE Optimise --------------------------------
(* N18: the largest divisor below a bound, the numbers with most divisors, the
   Bernoulli numbers.  The divisor maximum is taken over numbers whose exponents
   do not increase with the prime; OptimiseMC shows that this loses nothing.    *)
EXTENDS Primes, Judge
\* divisors of f = [<<p, e>>...] up to b
DivisorsUpTo(f, b) == FoldLeft(LAMBDA S, pe : LET pw == [i \in 1 .. pe[2] + 1 |-> NPow(pe[1], i - 1)] IN
                                 { d \in { NMul(x, pw[i]) : x \in S, i \in DOMAIN pw } : NLe(d, b) }, {<<1>>}, f)
Largest(S) == CHOOSE x \in S : \A y \in S : NLe(y, x)
PL == <<2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 101>>
\* most divisors of a number m * (primes from the i-th on, exponents at most e) <= top, m having t divisors
RECURSIVE MostFrom(_, _, _, _, _)
MostFrom(m, i, e, t, top) ==
  LET RECURSIVE Try(_, _, _)
      Try(x, k, best) ==    \* x = m * p_i^k
        IF k > e \/ NLt(top, x) THEN best
        ELSE LET r == MostFrom(x, i + 1, k, t * (k + 1), top)
             IN Try(TLCEval(NScale(x, PL[i])), k + 1, IF r > best THEN r ELSE best)
  IN Try(TLCEval(NScale(m, PL[i])), 1, t)
MostDivisors(top) == MostFrom(<<1>>, 1, 200, 1, top)

\* rationals <<num, den>>
Common(bs) == FoldLeft(LAMBDA m, q : NDiv(NMul(m, Mag(q[2])), NGcd(m, Mag(q[2]))), <<1>>, bs)
Scaled(q, m) == ZMul(q[1], ZNat(NDiv(m, Mag(q[2]))))
RECURSIVE BinomRow(_)
BinomRow(m) == IF m = 0 THEN <<<<1>>>>
               ELSE LET p == TLCEval(BinomRow(m - 1)) IN [i \in 1 .. m + 1 |-> IF i = 1 \/ i = m + 1 THEN <<1>> ELSE NAdd(p[i - 1], p[i])]
\* sum over k <= m of binomial(m + 1, k) B_k = 0
Recurrence(bs, m, common) ==
  LET row == BinomRow(m + 1)
  IN ZSum([k \in 1 .. m + 1 |-> ZMul(ZNat(row[k]), Scaled(bs[k], common))]) = ZOf(0)
IsRational(q) == /\ IsZ(q[1]) /\ IsZ(q[2]) /\ Sgn(q[2]) = 1
                 /\ NGcd(Mag(q[1]), Mag(q[2])) = <<1>>
BernoulliList(bs, n) ==
  FirstBad(<<Cl("length", Len(bs) = n + 1),
             Cl("rational", \A i \in DOMAIN bs : IsRational(bs[i])),
             Cl("first", bs[1] = <<ZOf(1), ZOf(1)>> /\ (n >= 1 => bs[2] = <<ZOf(-1), ZOf(2)>>)),
             Cl("recurrence", LET c == Common(bs) IN \A m \in 1 .. n : Recurrence(bs, m, c))>>)
FirstBadLazy(bs, n) == IF Len(bs) # n + 1 THEN "length" ELSE BernoulliList(bs, n)

OptimiseVerdict(e) ==
  LET a == e.in IN
  CASE e.op = "largest_divisor" -> Is(e.out, ZNat(Largest(DivisorsUpTo(Facts(Mag(a.n), a.f), Mag(a.b)))))
    [] e.op = "maximize_divisors" ->
         Ret(e.out, LAMBDA v : LET m == Mag(v[2]) IN FirstBad(<<
           Cl("range", Sgn(v[2]) = 1 /\ NLe(m, Mag(a.b))),
           Cl("count", Sgn(v[2]) = 1 /\ FoldLeft(LAMBDA t, pe : t * (pe[2] + 1), 1, Facts(m, v[3])) = v[1]),
           Cl("maximal", v[1] = MostDivisors(Mag(a.b)))>>))
    [] e.op = "bernoulli" -> Ret(e.out, LAMBDA v : FirstBadLazy(v, a.n))
=============================================================================
