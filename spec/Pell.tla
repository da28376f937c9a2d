---------------------------------- MODULE Pell ----------------------------------
(* N16: x^2 - D y^2 = N.  Solutions form classes under multiplication by the
   fundamental unit and sign; every class meets a bounded box (Mollin 7.1, 7.2),
   from which its least positive member is reached in one step.  PellMC checks
   this against the definition of classes and minimality on all small equations.
   Unit equations come from ContFrac.                                          *)
EXTENDS ContFrac, Primes
Unit(D, r) == UnitSolution(D, r, 1)
SameClass(D, N, s, t) ==
  /\ ZMod(ZSub(ZMul(s[1], t[1]), ZMul(D, ZMul(s[2], t[2]))), Mag(N)) = <<>>
  /\ ZMod(ZSub(ZMul(s[1], t[2]), ZMul(t[1], s[2])), Mag(N)) = <<>>
Positive(s) == Sgn(s[1]) > 0 /\ Sgn(s[2]) > 0
\* solutions <<x, y>> >= 0 of the box, as small integers; needs (u + 1)|N| < 2^31
BoxY(D, N, u) == LET x2 == IF N > 0 THEN ((u + 1) * N) \div 2 ELSE ((u - 1) * (-N)) \div 2
                 IN IF x2 < N THEN -1 ELSE Root((x2 - N) \div D)
SolAt(D, N, y) == LET t == N + D * y * y IN IF t < 0 \/ Root(t) * Root(t) # t THEN {} ELSE {<<Root(t), y>>}
\* the positive members reached from <<x, y>> and <<-x, y>>
Lifted(D, N, eps, s) ==
  LET x == ZOf(s[1]) y == ZOf(s[2]) IN
  IF s[1] = 0 \/ s[2] = 0 THEN {Times(D, <<x, y>>, eps)}
  ELSE {<<x, y>>, Times(D, IF Sgn(N) > 0 THEN <<x, ZNeg(y)>> ELSE <<ZNeg(x), y>>, eps)}
LeastOfClasses(D, N, C) == { s \in C : \A t \in C : SameClass(D, N, s, t) => ZLe(s[1], t[1]) /\ ZLe(s[2], t[2]) }
Minimal(D, N, r) ==
  LET eps == Unit(D, r) u == ZVal(eps[1])
      box == UNION { SolAt(ZVal(D), ZVal(N), y) : y \in 0 .. BoxY(ZVal(D), ZVal(N), u) }
  IN LeastOfClasses(D, N, UNION { Lifted(D, N, eps, s) : s \in box })
RECURSIVE Chain(_, _, _, _)
Chain(D, s, eps, top) == IF ZLt(top, s[1]) \/ ZLt(top, s[2]) THEN {} ELSE {s} \cup Chain(D, TLCEval(Times(D, s, eps)), eps, top)
ByX(S) == SetToSortSeq(S, LAMBDA s, t : ZLt(s[1], t[1]))

Bad(a) == Sgn(a.d) < 1 \/ IsSquareBy(a.r, a.d)
\* N is no square modulo a prime p dividing D exactly once: no solution (p certified by a.p)
Excluded(a) == a.p # <<>> /\ LET p == Mag(a.p) IN
  IF ~(TrialPrime(p) /\ NMod(Mag(a.d), p) = <<>> /\ p # <<2>>) THEN Assert(FALSE, "bad exclusion certificate")
  ELSE NPowMod(ZMod(a.n, p), NDivSmall(NSub(p, <<1>>), 2)[1], p) = NSub(p, <<1>>)
PellVerdict(e) ==
  LET a == e.in IN
  IF e.op \in {"fundamental", "resolvent"} THEN
    IF Bad(a) \/ a.n \notin {ZOf(1), ZOf(-1)} THEN Raises(e.out, "ValueError")
    ELSE LET s == UnitSolution(a.d, a.r, ZVal(a.n)) IN IF s = <<>> THEN Raises(e.out, "ValueError") ELSE Is(e.out, s)
  ELSE IF e.op = "minimal" THEN
    IF Bad(a) THEN Raises(e.out, "ValueError")
    ELSE IF Excluded(a) THEN Is(e.out, <<>>) ELSE Is(e.out, ByX(Minimal(a.d, a.n, a.r)))
  ELSE IF e.op = "generate" THEN
    IF Bad(a) THEN Raises(e.out, "ValueError")
    ELSE IF Excluded(a) THEN Is(e.out, <<>>)
    ELSE LET eps == Unit(a.d, a.r) all == UNION { Chain(a.d, s, eps, a.b) : s \in Minimal(a.d, a.n, a.r) } IN
         Ret(e.out, LAMBDA v : FirstBad(<<Cl("repetition", Len(v) = Cardinality({ v[i] : i \in DOMAIN v })),
                                          Cl("solution", \A i \in DOMAIN v : Positive(v[i]) /\ Norm(a.d, v[i]) = a.n),
                                          Cl("complete", { v[i] : i \in DOMAIN v } = all)>>))
  ELSE IF e.op = "farey" THEN
    \* a walk down the Stern-Brocot tree towards the root of D meets the convergents in order,
    \* and with N^2 < D every solution in lowest terms is one of them: the first one is the answer
    LET c == SqrtConvs(a.d, a.r, a.m)
    IN IF Norm(a.d, c[a.m]) # a.n THEN Assert(FALSE, "not the convergent") ELSE Is(e.out, (SelectSeq(c, LAMBDA s : Norm(a.d, s) = a.n))[1])
  ELSE \* "small": the first solutions for N^2 < D, in increasing order, are the primitive ones
    IF Bad(a) \/ ~ZLt(ZMul(a.n, a.n), a.d) THEN Raises(e.out, "ValueError")
    ELSE LET c == SqrtConvs(a.d, a.r, a.m)
             want == SelectSeq(c, LAMBDA s : Norm(a.d, s) = a.n)
         IN Ret(e.out, LAMBDA v : IF Len(want) < a.k THEN Assert(FALSE, "too few convergents") ELSE Cl("solutions", v = SubSeq(want, 1, a.k)))
=============================================================================
