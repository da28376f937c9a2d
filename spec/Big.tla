-------------------------------- MODULE Big --------------------------------
(* Unbounded integers for TLC, whose own integers have 32 bits.  A natural is
   its sequence of base-1000 limbs, least significant first, without leading
   zeros (<<>> is 0).  An integer is <<sign>> followed by the limbs of its
   absolute value, sign in {-1, 0, 1}; this is the encoding of the traces.
   BigMC checks the operators against the built-in integers and against the
   ring and division laws on multi-limb values.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
LOCAL Iota(n) == [i \in 1 .. n |-> i]
B == 1000

RECURSIVE NTrim(_)
NTrim(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN NTrim(SubSeq(a, 1, Len(a) - 1)) ELSE a
At(a, i) == IF i >= 1 /\ i <= Len(a) THEN a[i] ELSE 0
\* normalise a sequence of non-negative column sums (each < 2^31 - 2^22)
Carry(cols) ==
  LET r == FoldLeft(LAMBDA acc, x : LET t == x + acc[2] IN <<Append(acc[1], t % B), t \div B>>, <<<<>>, 0>>, cols)
      RECURSIVE Rest(_, _)
      Rest(s, c) == IF c = 0 THEN s ELSE Rest(Append(s, c % B), c \div B)
  IN NTrim(Rest(r[1], r[2]))

NNorm(a) == Carry(a)
RECURSIVE NOf(_)
NOf(n) == IF n = 0 THEN <<>> ELSE <<n % B>> \o NOf(n \div B)
\* the value, for naturals below 2^31
NVal(a) == FoldRight(LAMBDA x, acc : acc * B + x, a, 0)
NFits(a) == Len(a) <= 3

NCmp(a, b) ==     \* -1, 0, 1
  IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1)
  ELSE LET d == { i \in 1 .. Len(a) : a[i] # b[i] }
       IN IF d = {} THEN 0
          ELSE LET i == CHOOSE x \in d : \A y \in d : y <= x IN IF a[i] < b[i] THEN -1 ELSE 1
NLt(a, b) == NCmp(a, b) < 0
NLe(a, b) == NCmp(a, b) <= 0
NMax(a, b) == IF NLt(a, b) THEN b ELSE a

NAdd(a, b) ==
  LET n == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)
  IN Carry([i \in 1 .. n |-> At(a, i) + At(b, i)])
\* a - b for b <= a
NSub(a, b) ==
  LET r == FoldLeft(LAMBDA acc, i : LET t == (a[i] - At(b, i)) - acc[2]
                                    IN IF t < 0 THEN <<Append(acc[1], t + B), 1>> ELSE <<Append(acc[1], t), 0>>,
                    <<<<>>, 0>>, Iota(Len(a)))
  IN NTrim(r[1])
NScale(a, k) == IF k = 0 THEN <<>> ELSE Carry([i \in 1 .. Len(a) |-> a[i] * k])   \* 0 <= k < 2^20
\* numbers of more than about 2000 limbs would overflow a column
NMul(a, b) ==
  IF a = <<>> \/ b = <<>> THEN <<>>
  ELSE LET m == Len(a) n == Len(b)
           col(k) == LET lo == IF k - n + 1 > 1 THEN (k - n) + 1 ELSE 1
                         hi == IF k < m THEN k ELSE m
                     IN FoldLeft(LAMBDA acc, i : acc + a[i] * b[(k - i) + 1], 0, [i \in 1 .. (hi - lo) + 1 |-> (lo + i) - 1])
       IN Carry([k \in 1 .. (m + n) - 1 |-> col(k)])
RECURSIVE NPow(_, _)
NPow(a, k) == IF k = 0 THEN <<1>>
              ELSE LET h == TLCEval(NPow(a, k \div 2)) s == TLCEval(NMul(h, h))
                   IN IF k % 2 = 0 THEN s ELSE NMul(s, a)
RECURSIVE NProd(_)        \* product tree of a sequence of naturals
NProd(s) == IF Len(s) = 0 THEN <<1>> ELSE IF Len(s) = 1 THEN s[1]
            ELSE LET h == Len(s) \div 2
                 IN NMul(TLCEval(NProd(SubSeq(s, 1, h))), TLCEval(NProd(SubSeq(s, h + 1, Len(s)))))
NSum(s) == FoldLeft(LAMBDA acc, x : TLCEval(NAdd(acc, x)), <<>>, s)

\* division by a small divisor 1 <= d < 2^21
NDivSmall(a, d) ==      \* <<quotient, remainder>>
  LET r == FoldRight(LAMBDA x, acc : LET t == acc[2] * B + x IN <<<<t \div d>> \o acc[1], t % d>>, a, <<<<>>, 0>>)
  IN <<NTrim(r[1]), r[2]>>
NModSmall(a, d) == FoldRight(LAMBDA x, acc : (acc * B + x) % d, a, 0)

\* long division: the next quotient limb is estimated from the leading limbs
NDivMod(a, d) ==        \* <<quotient, remainder>>, d # <<>>
  IF NLt(a, d) THEN <<<<>>, a>>
  ELSE IF Len(d) = 1 THEN LET r == NDivSmall(a, d[1]) IN <<r[1], NOf(r[2])>>
  ELSE LET m == Len(d)
           top == d[m] * B + d[m - 1]
           RECURSIVE Fix(_, _)
           Fix(q, r) == LET p == TLCEval(NScale(d, q)) IN IF NLe(p, r) THEN <<q, TLCEval(NSub(r, p))>> ELSE Fix(q - 1, r)
           RECURSIVE Up(_)
           Up(qr) == IF NLt(qr[2], d) THEN qr ELSE Up(<<qr[1] + 1, TLCEval(NSub(qr[2], d))>>)
           Digit(r) == LET hi == At(r, m + 1) * (B * B) + At(r, m) * B + At(r, m - 1)
                           q0 == hi \div top
                       IN Up(Fix(IF q0 > B - 1 THEN B - 1 ELSE q0, r))
           z == FoldRight(LAMBDA x, acc : LET r == NTrim(<<x>> \o acc[2])
                                              qr == IF NLt(r, d) THEN <<0, r>> ELSE Digit(r)
                                          IN TLCEval(<<<<qr[1]>> \o acc[1], qr[2]>>), a, <<<<>>, <<>>>>)
       IN <<NTrim(z[1]), z[2]>>
NDiv(a, d) == NDivMod(a, d)[1]
NMod(a, d) == NDivMod(a, d)[2]
RECURSIVE NGcd(_, _)
NGcd(a, b) == IF b = <<>> THEN a ELSE NGcd(b, TLCEval(NMod(a, b)))
NMulMod(a, b, m) == NMod(NMul(a, b), m)
\* a^k mod m, k a natural given in limbs: bits from the low end
RECURSIVE NPowMod(_, _, _)
NPowMod(a, k, m) ==
  IF k = <<>> THEN NMod(<<1>>, m)
  ELSE LET h == NDivSmall(k, 2)
           r == TLCEval(NPowMod(TLCEval(NMulMod(a, a, m)), h[1], m))
       IN IF h[2] = 0 THEN r ELSE NMulMod(r, NMod(a, m), m)

(* signed integers *)
Z(s, mag) == IF mag = <<>> THEN <<0>> ELSE <<s>> \o mag
ZOf(n) == IF n = 0 THEN <<0>> ELSE IF n > 0 THEN <<1>> \o NOf(n) ELSE <<-1>> \o NOf(-n)
Sgn(z) == z[1]
Mag(z) == Tail(z)
ZNat(a) == Z(1, a)
ZNeg(z) == <<-z[1]>> \o Tail(z)
ZAbs(z) == Z(1, Mag(z))
IsZ(z) == /\ Len(z) >= 1 /\ z[1] \in {-1, 0, 1} /\ (z[1] = 0) = (Len(z) = 1)
ZAdd(x, y) ==
  IF Sgn(x) = 0 THEN y ELSE IF Sgn(y) = 0 THEN x
  ELSE IF Sgn(x) = Sgn(y) THEN Z(Sgn(x), NAdd(Mag(x), Mag(y)))
  ELSE LET c == NCmp(Mag(x), Mag(y))
       IN IF c = 0 THEN <<0>> ELSE IF c > 0 THEN Z(Sgn(x), NSub(Mag(x), Mag(y))) ELSE Z(Sgn(y), NSub(Mag(y), Mag(x)))
ZSub(x, y) == ZAdd(x, ZNeg(y))
ZMul(x, y) == Z(Sgn(x) * Sgn(y), NMul(Mag(x), Mag(y)))
ZPow(x, k) == Z(IF k % 2 = 1 THEN Sgn(x) ELSE IF k = 0 THEN 1 ELSE Sgn(x) * Sgn(x), NPow(Mag(x), k))
ZCmp(x, y) == Sgn(ZSub(x, y))
ZLt(x, y) == ZCmp(x, y) < 0
ZLe(x, y) == ZCmp(x, y) <= 0
\* floor division by a positive natural
ZDivMod(x, d) ==
  LET qr == NDivMod(Mag(x), d)
  IN IF Sgn(x) >= 0 THEN <<Z(1, qr[1]), qr[2]>>
     ELSE IF qr[2] = <<>> THEN <<Z(-1, qr[1]), <<>>>>
     ELSE <<Z(-1, NAdd(qr[1], <<1>>)), NSub(d, qr[2])>>
ZMod(x, d) == ZDivMod(x, d)[2]
ZSum(s) == FoldLeft(LAMBDA acc, x : TLCEval(ZAdd(acc, x)), <<0>>, s)
ZFits(z) == Len(z) <= 4
ZVal(z) == z[1] * NVal(Tail(z))
=============================================================================
