------------------------------- MODULE PolyArith -------------------------------
(* Polynomials with integer coefficients (limb integers, constant term first) and
   truncated power series.  A polynomial is a non-empty sequence without zeros at
   the top, zero being <<0>>.  PolyMC and SeriesMC check the operators against the
   defining identities and model the algorithms of the code.                    *)
EXTENDS Big
Z0 == <<0>>
Z1 == <<1, 1>>
RECURSIVE PTrim(_)
PTrim(f) == IF Len(f) > 1 /\ f[Len(f)] = Z0 THEN PTrim(SubSeq(f, 1, Len(f) - 1)) ELSE f
PNorm(f) == IF f = <<>> THEN <<Z0>> ELSE PTrim(f)
PAt(f, i) == IF i >= 1 /\ i <= Len(f) THEN f[i] ELSE Z0
IsPZero(f) == f = <<Z0>>
PDeg(f) == Len(f) - 1
PLead(f) == f[Len(f)]
PMax(a, b) == IF a > b THEN a ELSE b
PMin(a, b) == IF a < b THEN a ELSE b
PAdd(f, g) == PNorm([i \in 1 .. PMax(Len(f), Len(g)) |-> ZAdd(PAt(f, i), PAt(g, i))])
PNeg(f) == [i \in DOMAIN f |-> ZNeg(f[i])]
PSub(f, g) == PAdd(f, PNeg(g))
PScale(f, c) == PNorm([i \in DOMAIN f |-> ZMul(f[i], c)])
Conv(f, g, k) ==       \* coefficient k - 1 of the product of the sequences f and g
  LET lo == PMax(1, (k + 1) - Len(g)) hi == PMin(k, Len(f))
  IN FoldLeft(LAMBDA t, i : LET a == f[(lo + i) - 1] b == g[((k + 1) - lo) - i + 1] IN IF a = Z0 \/ b = Z0 THEN t ELSE TLCEval(ZAdd(t, ZMul(a, b))), Z0, [i \in 1 .. (hi - lo) + 1 |-> i])
PMul(f, g) == IF f = <<>> \/ g = <<>> THEN <<Z0>> ELSE PNorm([k \in 1 .. (Len(f) + Len(g)) - 1 |-> Conv(f, g, k)])
RECURSIVE PPow(_, _)
PPow(f, k) == IF k = 0 THEN <<Z1>>
              ELSE LET h == TLCEval(PPow(f, k \div 2)) s == TLCEval(PMul(h, h)) IN IF k % 2 = 0 THEN s ELSE PMul(s, f)
PShift(f, k) == IF IsPZero(f) THEN f ELSE [i \in 1 .. k |-> Z0] \o f
PEval(f, x) ==          \* sum of f_i x^i
  FoldLeft(LAMBDA acc, c : <<TLCEval(ZAdd(acc[1], ZMul(c, acc[2]))), TLCEval(ZMul(acc[2], x))>>, <<Z0, Z1>>, f)[1]
ZDivides(a, b) == IF Sgn(a) = 0 THEN Sgn(b) = 0 ELSE ZMod(b, Mag(a)) = <<>>
ZQuo(x, y) == Z(Sgn(x) * Sgn(y), NDiv(Mag(x), Mag(y)))         \* for y dividing x
\* exact long division: <<TRUE, q, r>>, or <<FALSE>> when a quotient coefficient is not integral
RECURSIVE PDivStep(_, _, _, _)
PDivStep(r, v, k, q) ==     \* k the power to eliminate next, descending to 0
  IF k < 0 THEN <<TRUE, PNorm(q), PNorm(r)>>
  ELSE LET t == PAt(r, k + Len(v)) IN
       IF ~ZDivides(PLead(v), t) THEN <<FALSE>>
       ELSE LET c == ZQuo(t, PLead(v))
                rr == [i \in DOMAIN r |-> IF i > k /\ i <= k + Len(v) THEN TLCEval(ZSub(r[i], ZMul(c, v[i - k]))) ELSE r[i]]
            IN PDivStep(TLCEval(rr), v, k - 1, <<c>> \o q)
PDiv(u, v) == IF Len(u) < Len(v) THEN <<TRUE, <<Z0>>, u>> ELSE PDivStep(u, v, Len(u) - Len(v), <<>>)
\* pseudo-division of u by v: l^(m-n+1) u = q v + r
PseudoOf(u, v) == LET e == Len(u) - Len(v) + 1 IN PDiv(PScale(u, ZPow(PLead(v), e)), v)
PContent(f) == FoldLeft(LAMBDA g, c : NGcd(g, Mag(c)), <<>>, f)          \* a natural
PPrim(f) == IF IsPZero(f) THEN f ELSE LET c == Z(Sgn(PLead(f)), PContent(f)) IN [i \in DOMAIN f |-> ZQuo(f[i], c)]
RECURSIVE PGcdPrim(_, _)    \* of primitive polynomials, by primitive remainders
PGcdPrim(u, v) == IF IsPZero(v) THEN u
                  ELSE IF Len(u) < Len(v) THEN PGcdPrim(v, u)
                  ELSE PGcdPrim(v, TLCEval(PPrim(PseudoOf(u, v)[3])))
PGcd(f, g) == IF IsPZero(f) THEN (IF IsPZero(g) THEN f ELSE PScale(PPrim(g), ZNat(PContent(g))))
              ELSE PScale(PGcdPrim(PPrim(f), PPrim(g)), ZNat(NGcd(PContent(f), PContent(g))))

(* truncated series: sequences of a fixed length n *)
SMul(f, g, n) == [k \in 1 .. n |-> Conv(f, g, k)]
SOne(n) == [k \in 1 .. n |-> IF k = 1 THEN Z1 ELSE Z0]
RECURSIVE SPow(_, _, _)
SPow(f, k, n) == IF k = 0 THEN SOne(n)
                 ELSE LET h == TLCEval(SPow(f, k \div 2, n)) s == TLCEval(SMul(h, h, n)) IN IF k % 2 = 0 THEN s ELSE SMul(s, f, n)
\* the product of (1 - q^m) over all m < n, by definition
EulerProduct(n) == FoldLeft(LAMBDA f, m : TLCEval([k \in 1 .. n |-> IF k > m THEN ZSub(f[k], f[k - m]) ELSE f[k]]), SOne(n), [m \in 1 .. n - 1 |-> m])
=============================================================================
