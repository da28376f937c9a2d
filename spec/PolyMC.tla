--------------------------------- MODULE PolyMC ---------------------------------
(* The polynomial algorithms as transition systems over all small coefficient
   lists: Miller's power recurrence, the rows of pseudo-division, the subresultant
   chain (its divisions are exact and the gcd is preserved), and Karatsuba's split
   with its recursion cut at every size.                                        *)
EXTENDS PolyArith
CONSTANTS C, LEN, KMAX, GLEN
VARIABLES job, st, phase
vars == <<job, st, phase>>
Coef == { ZOf(c) : c \in -C .. C }
Lists(n) == UNION { [1 .. m -> Coef] : m \in 1 .. n }
Polys(n) == { f \in Lists(n) : Len(f) = 1 \/ PLead(f) # Z0 }
NonZero(n) == { f \in Polys(n) : ~IsPZero(f) }
\* Karatsuba with threshold t on raw lists
LAdd(f, g) == [i \in 1 .. PMax(Len(f), Len(g)) |-> ZAdd(PAt(f, i), PAt(g, i))]
LSub(f, g) == [i \in 1 .. PMax(Len(f), Len(g)) |-> ZSub(PAt(f, i), PAt(g, i))]
Zeros(k) == [i \in 1 .. k |-> Z0]
LMul(f, g) == IF f = <<>> \/ g = <<>> THEN <<>> ELSE [k \in 1 .. (Len(f) + Len(g)) - 1 |-> Conv(f, g, k)]
RECURSIVE Kar(_, _, _)
Kar(f, g, t) ==
  IF Len(f) < t \/ Len(g) < t THEN LMul(f, g)
  ELSE LET k == PMax(Len(f), Len(g)) \div 2
           f0 == SubSeq(f, 1, PMin(k, Len(f))) f1 == SubSeq(f, k + 1, Len(f))
           g0 == SubSeq(g, 1, PMin(k, Len(g))) g1 == SubSeq(g, k + 1, Len(g))
           z0 == Kar(f0, g0, t) z2 == Kar(f1, g1, t)
           z1 == LSub(LSub(Kar(LAdd(f1, f0), LAdd(g1, g0), t), z2), z0)
       IN LAdd(LAdd(Zeros(2 * k) \o z2, Zeros(k) \o z1), z0)
Init ==
  /\ \/ \E f \in NonZero(LEN), k \in 0 .. KMAX : f[1] # Z0 /\ job = [k |-> "power", f |-> f, n |-> k] /\ st = [p |-> <<ZPow(f[1], k)>>]
     \/ \E f \in NonZero(LEN), g \in NonZero(LEN) : Len(f) >= Len(g) /\ job = [k |-> "pseudo", f |-> f, g |-> g]
          /\ st = [u |-> f, q |-> <<>>, i |-> Len(f) - Len(g)]
     \/ \E f \in NonZero(GLEN), g \in NonZero(GLEN) : Len(f) >= Len(g) /\ job = [k |-> "gcd", f |-> f, g |-> g]
          /\ st = [u |-> PPrim(f), v |-> PPrim(g), g |-> Z1, h |-> Z1, exact |-> TRUE, out |-> <<>>]
     \/ \E f \in [1 .. 4 -> {ZOf(1), ZOf(-1)}] \cup [1 .. 3 -> {Z0, ZOf(2)}], m \in 1 .. 5, t \in 2 .. 3 :
          job = [k |-> "karatsuba", f |-> f, g |-> [i \in 1 .. m |-> ZOf(i * i - 5)], n |-> t] /\ st = [z |-> 0]
  /\ phase = "run"
Power == LET f == job.f k == job.n i == Len(st.p) n == Len(f) IN
  IF i = (n - 1) * k + 1 THEN phase' = "done" /\ UNCHANGED st
  ELSE LET ss == ZSum([j \in 1 .. PMin(n - 1, i) |-> ZMul(ZMul(f[j + 1], ZOf((k + 1) * j - i)), st.p[i - j + 1])])
           den == ZMul(ZOf(i), f[1])
       IN st' = [p |-> Append(st.p, IF ZDivides(den, ss) THEN ZQuo(ss, den) ELSE Assert(FALSE, "inexact"))] /\ UNCHANGED phase
\* one row: eliminate the leading term, scaling all lower ones
Pseudo == LET v == job.g n == Len(v) l == PLead(v) IN
  IF st.i < 0 THEN phase' = "done" /\ UNCHANGED st
  ELSE LET k == st.i top == st.u[n + k] IN
       /\ st' = [u |-> [j \in 1 .. (n + k) - 1 |-> IF j <= k THEN ZMul(l, st.u[j]) ELSE ZSub(ZMul(l, st.u[j]), ZMul(top, v[j - k]))],
                 q |-> <<ZMul(top, ZPow(l, k))>> \o st.q, i |-> k - 1]
       /\ UNCHANGED phase
Gcd == LET dd == Len(st.u) - Len(st.v) r == PseudoOf(st.u, st.v)[3]
           d == ZNat(NGcd(PContent(job.f), PContent(job.g)))
           den == ZMul(st.g, ZPow(st.h, dd))
           v1 == [i \in DOMAIN r |-> ZQuo(r[i], den)]
           g1 == PLead(st.v)
           h1 == IF dd = 0 THEN st.h ELSE IF dd = 1 THEN g1 ELSE ZQuo(ZPow(g1, dd), ZPow(st.h, dd - 1))
       IN IF IsPZero(r) THEN st' = [st EXCEPT !.out = PScale(PPrim(st.v), d)] /\ phase' = "done"
          ELSE IF Len(r) = 1 THEN st' = [st EXCEPT !.out = <<d>>] /\ phase' = "done"
          ELSE /\ st' = [u |-> st.v, v |-> v1, g |-> g1, h |-> h1, out |-> <<>>,
                         exact |-> st.exact /\ (\A i \in DOMAIN r : ZDivides(den, r[i])) /\ (dd > 1 => ZDivides(ZPow(st.h, dd - 1), ZPow(g1, dd)))]
               /\ UNCHANGED phase
Next == /\ phase = "run" /\ UNCHANGED job
        /\ CASE job.k = "power" -> Power [] job.k = "pseudo" -> Pseudo [] job.k = "gcd" -> Gcd [] job.k = "karatsuba" -> phase' = "done" /\ UNCHANGED st
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
RECURSIVE Repeated(_, _)
Repeated(f, k) == IF k = 0 THEN <<Z1>> ELSE PMul(f, Repeated(f, k - 1))
PowerRight == job.k = "power" =>
  LET t == Repeated(job.f, job.n) IN
  /\ phase = "done" => PNorm(st.p) = t /\ PPow(job.f, job.n) = t
  /\ \A i \in DOMAIN st.p : st.p[i] = PAt(t, i)
\* l^(steps) f = q x^(i+1) v + (u, with its tail scaled)
PseudoRight == job.k = "pseudo" /\ phase = "done" =>
  LET l == PLead(job.g) e == Len(job.f) - Len(job.g) + 1 q == PNorm(st.q) r == PNorm(st.u) IN
  /\ PScale(job.f, ZPow(l, e)) = PAdd(PMul(q, job.g), r)
  /\ IsPZero(r) \/ Len(r) < Len(job.g)
  /\ PseudoOf(job.f, job.g) = <<TRUE, q, r>>
DivRight == job.k = "pseudo" /\ phase = "run" =>
  LET d == PDiv(job.f, job.g) IN
  IF d[1] THEN job.f = PAdd(PMul(d[2], job.g), d[3]) /\ (IsPZero(d[3]) \/ Len(d[3]) < Len(job.g))
  ELSE \* no integral quotient: the rational one, from pseudo-division, is not integral
       \E i \in DOMAIN PseudoOf(job.f, job.g)[2] : ~ZDivides(ZPow(PLead(job.g), Len(job.f) - Len(job.g) + 1), PseudoOf(job.f, job.g)[2][i])
Divides(d, f) == IsPZero(f) \/ (LET x == PDiv(f, d) IN x[1] /\ IsPZero(x[3]))
GcdRight == job.k = "gcd" =>
  /\ st.exact
  /\ phase = "done" => st.out = PGcd(job.f, job.g) /\ Sgn(PLead(st.out)) > 0
  \* the primitive gcd is kept along the chain
  /\ phase = "run" => PGcdPrim(PPrim(st.u), PPrim(st.v)) = PGcdPrim(PPrim(job.f), PPrim(job.g))
GcdGreatest == job.k = "gcd" /\ phase = "done" =>
  /\ Divides(st.out, job.f) /\ Divides(st.out, job.g)
  /\ \A d \in NonZero(2) : Divides(d, job.f) /\ Divides(d, job.g) => Divides(d, st.out)
KaratsubaRight == job.k = "karatsuba" => PNorm(Kar(job.f, job.g, job.n)) = PMul(job.f, job.g) /\ PNorm(Kar(job.g, job.f, job.n)) = PMul(job.f, job.g)
ContentRight == job.k = "gcd" => /\ PScale(PPrim(job.f), ZNat(PContent(job.f))) \in {job.f, PNeg(job.f)}
                                 /\ PContent(PPrim(job.f)) = <<1>>
\* evaluation is a ring homomorphism
EvalRight == job.k = "pseudo" /\ phase = "run" => \A x \in {ZOf(-2), Z0, ZOf(3)} :
  /\ PEval(PMul(job.f, job.g), x) = ZMul(PEval(job.f, x), PEval(job.g, x))
  /\ PEval(PSub(job.f, job.g), x) = ZSub(PEval(job.f, x), PEval(job.g, x))
Terminates == <>(phase = "done")
=============================================================================
