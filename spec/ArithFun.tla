------------------------------- MODULE ArithFun -------------------------------
(* The multiplicative functions over a factorization [<<p, e>>...] with natural
   (limb) primes, over small numbers, and their summatory functions as residues
   modulo five primes (exact, by the Chinese remainder theorem, for values
   below their product).  ArithMC checks everything against the definitions.  *)
EXTENDS Primes
FPhi(f) == NProd([i \in DOMAIN f |-> NMul(NPow(f[i][1], f[i][2] - 1), NSub(f[i][1], <<1>>))])
FTau(f) == FoldLeft(LAMBDA t, pe : t * (pe[2] + 1), 1, f)
FMu(f) == IF \E i \in DOMAIN f : f[i][2] > 1 THEN 0 ELSE IF Len(f) % 2 = 0 THEN 1 ELSE -1
FSigma(f, k) == IF k = 0 THEN NOf(FTau(f))
                ELSE NProd([i \in DOMAIN f |-> NSum([j \in 1 .. f[i][2] + 1 |-> NPow(f[i][1], k * (j - 1))])])
LOCAL L(a, b) == NDiv(NMul(a, b), NGcd(a, b))
FLambda(f) == FoldLeft(LAMBDA acc, pe :
                 L(acc, IF pe[1] = <<2>> THEN NPow(<<2>>, IF pe[2] <= 2 THEN pe[2] - 1 ELSE pe[2] - 2)
                        ELSE NMul(NPow(pe[1], pe[2] - 1), NSub(pe[1], <<1>>))), <<1>>, f)
\* small numbers
SPhi(f) == FoldLeft(LAMBDA t, pe : t * pe[1] ^ (pe[2] - 1) * (pe[1] - 1), 1, f)
SSigma1(f) == FoldLeft(LAMBDA t, pe : t * FoldLeft(LAMBDA u, j : u * pe[1] + 1, 1, [j \in 1 .. pe[2] |-> j]), 1, f)
Bigs(f) == [i \in DOMAIN f |-> <<NOf(f[i][1]), f[i][2]>>]

Moduli == <<32749, 32719, 32717, 32713, 32707>>
ModProd == NProd([i \in 1 .. 5 |-> NOf(Moduli[i])])
Residues(z) == [i \in 1 .. 5 |-> LET r == NModSmall(Mag(z), Moduli[i]) IN IF Sgn(z) < 0 THEN (Moduli[i] - r) % Moduli[i] ELSE r]
Tri(n) == IF n % 2 = 0 THEN <<n \div 2, n + 1>> ELSE <<n, (n + 1) \div 2>>
TriMod(n, m) == LET t == Tri(n) IN ((t[1] % m) * (t[2] % m)) % m
PyrMod(n, m) == NModSmall(NDivSmall(NMul(NMul(NOf(n), NOf(n + 1)), NOf(2 * n + 1)), 6)[1], m)
\* S with  sum over d <= v of w(d) S(v div d) = G(v),  w(1) = 1; wsum(a, b) = w(a+1) + ... + w(b); all modulo m.
\* hi[i] = S(n div i), lo[k] = S(k)
DirichletSum(n, m, G(_), wsum(_, _)) ==
  LET r == Root(n)
      Val(v, S(_)) ==
        LET c == Root(v)          \* quotients above c one by one, the others by blocks
            h == v \div (c + 1)   \* divisors 2 .. h
            one == FoldLeft(LAMBDA t, d : (t + ((wsum(d - 1, d) * S(v \div d)) % m)) % m, 0, [d \in 1 .. h - 1 |-> d + 1])
            blk == FoldLeft(LAMBDA t, q : LET b == v \div q a == v \div (q + 1) IN
                              (t + ((wsum(IF a < 1 THEN 1 ELSE a, b) * S(q)) % m)) % m, 0, [q \in 1 .. (IF v = 1 THEN 0 ELSE c) |-> q])
        IN ((G(v) - one) - blk) % m
      lo == FoldLeft(LAMBDA f, v : Append(f, Val(v, LAMBDA q : f[q])), <<>>, [v \in 1 .. r |-> v])
      hi == FoldLeft(LAMBDA f, j :      \* f[j] = S(n div (r + 1 - j))
              LET i == r + 1 - j IN Append(f, Val(n \div i, LAMBDA q : IF q <= r THEN lo[q] ELSE f[r + 1 - (n \div q)])), <<>>, [j \in 1 .. r |-> j])
  IN hi[r]
Pos(x, m) == ((x % m) + m) % m
MuSumMod(n, m) == Pos(DirichletSum(n, m, LAMBDA v : 1, LAMBDA a, b : (b - a) % m), m)
PhiSumMod(n, m) == Pos(DirichletSum(n, m, LAMBDA v : TriMod(v, m), LAMBDA a, b : (b - a) % m), m)
WPhiSumMod(n, m) == Pos(DirichletSum(n, m, LAMBDA v : PyrMod(v, m), LAMBDA a, b : Pos(TriMod(b, m) - TriMod(a, m), m)), m)
\* sum of sigma = sum over d of d * (n div d), by blocks of equal quotient
SigmaSumMod(n, m) ==
  LET c == Root(n) h == n \div (c + 1)
      one == FoldLeft(LAMBDA t, d : (t + (((d % m) * ((n \div d) % m)) % m)) % m, 0, [d \in 1 .. h |-> d])
      blk == FoldLeft(LAMBDA t, q : (t + ((q * Pos(TriMod(n \div q, m) - TriMod(n \div (q + 1), m), m)) % m)) % m, 0, [q \in 1 .. c |-> q])
  IN (one + blk) % m
=============================================================================
