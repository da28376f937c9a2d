-------------------------------- MODULE ZnArith --------------------------------
(* N12, N13: orders, generators, discrete logarithms and equations in Z/n.  All
   numbers are limb integers; factorizations arrive as certificates.  A list of
   solutions is accepted when its members are increasing residues satisfying the
   equation and there are as many as the counting theorems say; ZnMC checks those
   theorems against the definitions for all small moduli.                      *)
EXTENDS Primes, Judge
Res(z, n) == ZMod(z, n)                         \* residue of an integer, a natural below n
PowIs1(a, k, n) == NPowMod(a, k, n) = NMod(<<1>>, n)
PhiOf(f) == NProd([i \in DOMAIN f |-> NMul(NPow(f[i][1], f[i][2] - 1), NSub(f[i][1], <<1>>))])
CoprimeTo(a, n) == NGcd(NMod(a, n), n) = <<1>> \/ n = <<1>>
\* a has order d modulo n; f is the factorization of d
HasOrder(a, d, f, n) == d # <<>> /\ PowIs1(a, d, n) /\ \A i \in DOMAIN f : ~PowIs1(a, NDiv(d, f[i][1]), n)
\* a generates the units modulo n >= 2; fphi is the factorization of phi(n)
Generates(a, n, phi, fphi) == CoprimeTo(a, n) /\ \A i \in DOMAIN fphi : ~PowIs1(a, NDiv(phi, fphi[i][1]), n)
\* the moduli n >= 2 with a primitive root: 2, 4, p^k, 2 p^k
Cyclic(fn) == \/ Len(fn) = 1 /\ (fn[1][1] # <<2>> \/ fn[1][2] <= 2)
              \/ Len(fn) = 2 /\ fn[1] = <<<<2>>, 1>>
Increasing(v) == \A i \in 1 .. Len(v) - 1 : NLt(v[i], v[i + 1])
\* the answer: exactly the residues x modulo n with Eq(x), which number cnt (a natural)
Solves(out, n, cnt, Eq(_)) ==
  Ret(out, LAMBDA v : FirstBad(<<
    Cl("range", \A i \in DOMAIN v : Sgn(v[i]) >= 0 /\ NLt(Mag(v[i]), n)),
    Cl("increasing", Increasing([i \in DOMAIN v |-> Mag(v[i])])),
    Cl("solution", \A i \in DOMAIN v : Eq(Mag(v[i]))),
    Cl("complete", NOf(Len(v)) = cnt)>>))

(* the number of square roots of a modulo p^k *)
RECURSIVE Val(_, _)
Val(a, p) == LET d == NDivMod(a, p) IN IF d[2] # <<>> THEN 0 ELSE 1 + Val(d[1], p)
QRes(a, p) == NPowMod(a, NDivSmall(NSub(p, <<1>>), 2)[1], p) = <<1>>       \* Euler, p odd, p not dividing a
UnitSqrts(u, p, m) == IF p = <<2>> THEN (IF m = 1 THEN 1
                                         ELSE IF m = 2 THEN (IF NModSmall(u, 4) = 1 THEN 2 ELSE 0)
                                         ELSE IF NModSmall(u, 8) = 1 THEN 4 ELSE 0)
                      ELSE IF QRes(NMod(u, p), p) THEN 2 ELSE 0
SqrtCount(a, p, k) ==        \* a a natural
  LET m == NMod(a, NPow(p, k)) IN
  IF m = <<>> THEN NPow(p, k \div 2)
  ELSE LET v == Val(m, p) IN
       IF v % 2 = 1 THEN <<>> ELSE NScale(NPow(p, v \div 2), UnitSqrts(NDiv(m, NPow(p, v)), p, k - v))
SqrtCountN(z, fn) == NProd([i \in DOMAIN fn |-> SqrtCount(ZMod(z, NPow(fn[i][1], fn[i][2])), fn[i][1], fn[i][2])])

(* the number of roots of a x^2 + b x + c modulo p^k *)
QuadEq(c, x, n) == ZMod(ZAdd(ZMul(ZAdd(ZMul(c[1], ZNat(x)), c[2]), ZNat(x)), c[3]), n) = <<>>
RECURSIVE QuadRoots(_, _, _)
QuadRoots(r, p, k) ==        \* r the three coefficients as naturals
  IF k = 0 THEN <<1>> ELSE
  LET in(i) == NMod(r[i], p) = <<>> IN
  IF in(1) /\ in(2) THEN      \* p divides everything or there is no root
    IF in(3) THEN NMul(p, QuadRoots([i \in 1 .. 3 |-> NDiv(r[i], p)], p, k - 1)) ELSE <<>>
  ELSE IF in(1) THEN <<1>>     \* a simple root lifts uniquely
  ELSE IF p # <<2>> THEN       \* complete the square
    SqrtCount(ZMod(ZSub(ZNat(NMul(r[2], r[2])), ZNat(NMul(<<4>>, NMul(r[1], r[3])))), NPow(p, k)), p, k)
  ELSE IF ~in(2) THEN (IF in(3) THEN <<2>> ELSE <<>>)      \* two simple roots, or x^2 + x + 1
  ELSE LET h == NDiv(r[2], p) IN SqrtCount(ZMod(ZSub(ZNat(NMul(h, h)), ZNat(NMul(r[1], r[3]))), NPow(p, k)), p, k)
QuadCount(c, p, k) == LET q == NPow(p, k) IN QuadRoots([i \in 1 .. 3 |-> ZMod(c[i], q)], p, k)
QuadCountN(c, fn) == NProd([i \in DOMAIN fn |-> QuadCount(c, fn[i][1], fn[i][2])])

(* discrete logarithms modulo a prime: b is a power of a with a positive exponent *)
IsPowerOf(a, b, p, ord) ==      \* residues; ord the order of a when a # 0
  IF a = <<>> THEN b = <<>> ELSE b # <<>> /\ NPowMod(b, ord, p) = <<1>> 

PHI(e) == LET a == e.in IN Facts(PhiOf(Facts(Mag(a.n), a.fn)), a.fphi)
ZnArithVerdict(e) ==
  LET a == e.in n == Mag(a.n) IN
  CASE e.op = "multiplicative_order" ->
         LET x == Res(a.a, n) IN
         IF ~CoprimeTo(x, n) THEN Raises(e.out, "ValueError")
         ELSE LET f == Facts(Mag(a.d), a.fd) IN
              IF ~HasOrder(x, Mag(a.d), f, n) THEN Assert(FALSE, "bad order certificate") ELSE Is(e.out, a.d)
    [] e.op = "is_primitive_root" ->
         IF Sgn(a.n) < 1 \/ n = <<1>> THEN Raises(e.out, "ValueError")
         ELSE LET fn == Facts(n, a.fn) phi == PhiOf(fn) IN
              Is(e.out, Generates(Res(a.a, n), n, phi, Facts(phi, a.fphi)))
    [] e.op = "primitive_root" ->
         LET fn == Facts(n, a.fn) phi == PhiOf(fn) IN
         IF ~Cyclic(fn) THEN Raises(e.out, "ValueError")
         ELSE LET fphi == Facts(phi, a.fphi) IN
              Ret(e.out, LAMBDA g : FirstBad(<<
                Cl("range", Sgn(g) = 1 /\ NLt(Mag(g), n)),
                Cl("generator", Generates(Mag(g), n, phi, fphi)),
                Cl("least", Len(g) <= 3 /\ \A h \in 1 .. NVal(Mag(g)) - 1 : ~Generates(NOf(h), n, phi, fphi))>>))
    [] e.op = "fibonacci_primitive_roots" ->
         LET phi == NSub(n, <<1>>) fphi == Facts(phi, a.fphi)
             s == Mag(a.s)        \* a root of x^2 = x + 1, or nothing when 5 is no square
             Good(r) == NMod(NMul(r, r), n) = NMod(NAdd(r, <<1>>), n)
             t == NMod(NSub(NAdd(n, <<1>>), s), n)
             roots == IF a.s = <<>> THEN {} ELSE {s, t}
             gen == { r \in roots : Generates(r, n, phi, fphi) }
         IN IF ~IsPrimeBy(n, a.fn.pratt) THEN Assert(FALSE, "not a prime")
            ELSE IF IF a.s = <<>> THEN n # <<2>> /\ (NMod(<<5>>, n) = <<>> \/ QRes(NMod(<<5>>, n), n)) ELSE ~Good(s) THEN Assert(FALSE, "bad root certificate")
            ELSE Solves(e.out, n, NOf(Cardinality(gen)), LAMBDA r : r \in gen)
    [] e.op = "discrete_log" ->
         LET x == Res(a.a, n) y == Res(a.b, n)
             works(v) == Sgn(v) = 1 /\ NPowMod(x, Mag(v), n) = y
         IN IF Len(a.d) = 0 THEN      \* composite modulus: soundness only
              (IF e.out.k = "exc" THEN Raises(e.out, "ValueError") ELSE Holds(e.out, "exponent", works))
            ELSE IF ~IsPrimeBy(n, a.fn.pratt) THEN Assert(FALSE, "not a prime")
            ELSE IF x # <<>> /\ ~HasOrder(x, Mag(a.d), Facts(Mag(a.d), a.fd), n) THEN Assert(FALSE, "bad order certificate")
            ELSE IF IsPowerOf(x, y, n, Mag(a.d)) THEN Holds(e.out, "exponent", works)
            ELSE Raises(e.out, "ValueError")
    [] e.op = "sqrts_mod_p" ->
         IF Sgn(a.n) < 1 \/ n = <<1>> THEN Raises(e.out, "ValueError")
         ELSE IF ~IsPrimeBy(n, a.fn.pratt) THEN Assert(FALSE, "not a prime")
         ELSE Solves(e.out, n, SqrtCount(Res(a.a, n), n, 1), LAMBDA x : NMulMod(x, x, n) = Res(a.a, n))
    [] e.op = "sqrts_mod_n" ->
         Solves(e.out, n, SqrtCountN(a.a, Facts(n, a.fn)), LAMBDA x : NMulMod(x, x, n) = Res(a.a, n))
    [] e.op = "roots_of_unity" ->
         IF ~IsPrimeBy(n, a.fn.pratt) THEN Assert(FALSE, "not a prime")
         ELSE Solves(e.out, n, NGcd(Mag(a.k), NSub(n, <<1>>)), LAMBDA x : NPowMod(x, Mag(a.k), n) = <<1>>)
    [] e.op = "roots_of_minus1" ->
         IF ~IsPrimeBy(n, a.fn.pratt) THEN Assert(FALSE, "not a prime")
         ELSE LET n1 == NSub(n, <<1>>) d == NGcd(Mag(a.k), n1) IN
              Solves(e.out, n, IF n = <<2>> \/ NModSmall(NDiv(n1, d), 2) = 0 THEN d ELSE <<>>, LAMBDA x : NPowMod(x, Mag(a.k), n) = n1)
    [] e.op = "linear_congruence" ->
         IF Sgn(a.n) < 1 \/ n = <<1>> THEN Raises(e.out, "ValueError")
         ELSE LET d == NGcd(Res(a.a, n), n) dd == IF d = <<>> THEN n ELSE d IN
              Solves(e.out, n, IF ZMod(a.b, dd) = <<>> THEN dd ELSE <<>>, LAMBDA x : NMulMod(Res(a.a, n), x, n) = Res(a.b, n))
    [] e.op = "quadratic_congruence" ->
         Solves(e.out, n, QuadCountN(a.c, Facts(n, a.fn)), LAMBDA x : QuadEq(a.c, x, n))
=============================================================================
