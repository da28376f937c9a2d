-------------------------------- MODULE Elementary --------------------------------
(* N01, N02, N03: the elementary functions of rosemary.number_theory.core on
   integers of any size (encoded as in Big).                                 *)
EXTENDS Big, Judge
RECURSIVE NGcdAll(_)
NGcdAll(s) == FoldLeft(LAMBDA acc, z : TLCEval(NGcd(acc, Mag(z))), <<>>, s)
Divides(d, n) == IF d = <<>> THEN n = <<>> ELSE NMod(n, d) = <<>>
\* lcm by its definition through gcd: every member divides it and it divides any common multiple
NLcm(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE NDiv(NMul(a, b), NGcd(a, b))
NLcmAll(s) == FoldLeft(LAMBDA acc, z : TLCEval(NLcm(acc, Mag(z))), <<1>>, s)

InRange(z, m) == Sgn(z) >= 0 /\ NLt(Mag(z), m)           \* 0 <= z < m
Congruent(x, y, m) == ZMod(ZSub(x, y), m) = <<>>
Coprime(s) == \A i \in DOMAIN s : \A j \in i + 1 .. Len(s) : NGcd(s[i], s[j]) = <<1>>

RECURSIVE Bits(_)
Bits(n) == IF n = <<>> THEN 0 ELSE LET h == NDivSmall(n, 2) IN h[2] + Bits(h[1])

\* Legendre symbol by Euler's criterion, p an odd prime
Legendre(a, p) == LET r == ZMod(a, p) IN IF r = <<>> THEN 0
                  ELSE IF NPowMod(r, NDivSmall(NSub(p, <<1>>), 2)[1], p) = <<1>> THEN 1 ELSE -1
\* Jacobi symbol of an odd number given with its prime factorization (with repetition)
Jacobi(a, ps) == FoldLeft(LAMBDA acc, p : acc * Legendre(a, p), 1, ps)

ElementaryVerdict(e) ==
  LET a == e.in IN
  CASE e.op = "gcd" -> Is(e.out, Z(1, NGcd(Mag(a.x), Mag(a.y))))
    [] e.op = "lcm" -> Is(e.out, Z(1, NLcm(Mag(a.x), Mag(a.y))))
    [] e.op = "gcd_list" -> Ret(e.out, LAMBDA v : FirstBad(<<Cl("argument-changed", v[2] = a.l), Cl("value", v[1] = Z(1, NGcdAll(a.l)))>>))
    [] e.op = "lcm_list" -> Ret(e.out, LAMBDA v : FirstBad(<<Cl("argument-changed", v[2] = a.l), Cl("value", v[1] = Z(1, NLcmAll(a.l)))>>))
    [] e.op = "ext_gcd" -> Ret(e.out, LAMBDA v : FirstBad(<<
         Cl("gcd", v[3] = Z(1, NGcd(Mag(a.x), Mag(a.y)))),
         Cl("combination", ZAdd(ZMul(v[1], a.x), ZMul(v[2], a.y)) = v[3])>>))
    [] e.op = "inverse_mod" ->
         IF ZLt(a.m, <<1, 2>>) \/ NGcd(Mag(a.a), Mag(a.m)) # <<1>> THEN Raises(e.out, "ValueError")
         ELSE Ret(e.out, LAMBDA v : FirstBad(<<Cl("range", InRange(v, Mag(a.m))), Cl("inverse", Congruent(ZMul(v, a.a), <<1, 1>>, Mag(a.m)))>>))
    [] e.op = "chinese" ->
         IF ~Coprime([i \in DOMAIN a.m |-> Mag(a.m[i])]) THEN Raises(e.out, "ValueError")
         ELSE Ret(e.out, LAMBDA v : FirstBad(<<
           Cl("range", InRange(v, NProd([i \in DOMAIN a.m |-> Mag(a.m[i])]))),
           Cl("congruences", \A i \in DOMAIN a.m : Congruent(v, a.r[i], Mag(a.m[i])))>>))
    [] e.op = "chinese_preconditioned" ->     \* several residue vectors with the same data
         Ret(e.out, LAMBDA vs : LET M == NProd([i \in DOMAIN a.m |-> Mag(a.m[i])]) IN FirstBad([k \in DOMAIN a.rs |-> FirstBad(<<
           Cl("range", InRange(vs[k], M)),
           Cl("congruences", \A i \in DOMAIN a.m : Congruent(vs[k], a.rs[k][i], Mag(a.m[i])))>>)]))
    [] e.op = "crt_preconditioning_data" ->
         Ret(e.out, LAMBDA v :
           LET k == Len(a.m)
               part(i) == NProd([j \in 1 .. i - 1 |-> Mag(a.m[j])])
           IN FirstBad(<<
           Cl("length", v[1] = k /\ Len(v[2]) = k /\ Len(v[3]) = k /\ Len(v[4]) = k),
           Cl("moduli", v[2] = a.m),
           Cl("partial-products", \A i \in 1 .. k : v[3][i] = Z(1, part(i))),
           Cl("inverses", \A i \in 1 .. k : Congruent(ZMul(v[4][i], v[3][i]), <<1, 1>>, Mag(a.m[i])) /\ InRange(v[4][i], Mag(a.m[i]))),
           Cl("product", v[5] = Z(1, part(k + 1)))>>))
    [] e.op = "power_mod" ->
         IF Sgn(a.a) < 0 \/ Sgn(a.k) < 0 \/ Sgn(a.m) < 1 THEN Raises(e.out, "ValueError")
         ELSE Is(e.out, Z(1, NPowMod(Mag(a.a), Mag(a.k), Mag(a.m))))
    [] e.op = "bit_count" -> Is(e.out, Bits(Mag(a.n)))
    [] e.op = "integer_log" ->
         IF ZLt(a.b, <<1, 2>>) \/ Sgn(a.n) < 1 THEN Raises(e.out, "ValueError")
         ELSE Ret(e.out, LAMBDA k : LET q == TLCEval(NPow(Mag(a.b), k)) IN
              Cl("not-the-floor", k >= 0 /\ NLe(q, Mag(a.n)) /\ NLt(Mag(a.n), NMul(q, Mag(a.b)))))
    [] e.op = "integer_sqrt" ->
         IF Sgn(a.n) < 0 THEN Raises(e.out, "ValueError")
         ELSE Ret(e.out, LAMBDA r : Cl("not-the-floor", Sgn(r) >= 0 /\ NLe(NMul(Mag(r), Mag(r)), Mag(a.n))
                                            /\ LET s == NAdd(Mag(r), <<1>>) IN NLt(Mag(a.n), NMul(s, s))))
    [] e.op = "integer_nth_root" ->
         IF Sgn(a.m) < 0 \/ a.n < 1 THEN Raises(e.out, "ValueError")
         ELSE Ret(e.out, LAMBDA r : Cl("not-the-floor", Sgn(r) >= 0 /\ NLe(NPow(Mag(r), a.n), Mag(a.m))
                                            /\ (IF Mag(r) = <<1>> /\ a.n > 200 THEN Bits(Mag(a.m)) > 0 /\ NLt(Mag(a.m), NPow(<<2>>, 200))
                                                ELSE NLt(Mag(a.m), NPow(NAdd(Mag(r), <<1>>), a.n)))))
    [] e.op = "jacobi_symbol" ->
         IF Mag(a.m) = <<>> \/ NModSmall(Mag(a.m), 2) = 0 THEN Raises(e.out, "ValueError")
         ELSE Is(e.out, Jacobi(a.a, [i \in DOMAIN a.ps |-> Mag(a.ps[i])]))
    [] e.op = "valuation" ->
         Ret(e.out, LAMBDA k : LET q == NPow(Mag(a.p), k) IN
              Cl("not-the-exact-power", k >= 0 /\ Divides(q, Mag(a.n)) /\ ~Divides(NMul(q, Mag(a.p)), Mag(a.n))))
=============================================================================
