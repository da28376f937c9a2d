------------------------------- MODULE ContFracMC -------------------------------
(* The expansion as a transition system over all small (p + sqrt d)/q: each
   quotient is the true floor, each step the true reciprocal, the denominators
   divide, convergents are coprime and alternate around the number, the states
   return.  For sqrt d the first return to Q = 1 is the period of the states, and
   the unit solutions read off are the least ones.                            *)
EXTENDS ContFrac
CONSTANTS DMAX, PMAX, QMAX, N
VARIABLES job, st, hist, conv
vars == <<job, st, hist, conv>>
Sq(n) == \E r \in 0 .. n : r * r = n
Rt(n) == LET RECURSIVE F(_) F(x) == LET y == (x + n \div x) \div 2 IN IF y >= x THEN x ELSE F(y) IN IF n < 2 THEN n ELSE F(n)
Sq2(n) == n >= 0 /\ Rt(n) * Rt(n) = n
RootIn(n) == CHOOSE r \in 0 .. n : r * r <= n /\ n < (r + 1) * (r + 1)
Jobs == { [d |-> d, p |-> p, q |-> q] : d \in { x \in 2 .. DMAX : ~Sq(x) }, p \in -PMAX .. PMAX, q \in (-QMAX .. QMAX) \ {0} }
S0(j) == Scaled(ZOf(j.d), ZOf(j.p), ZOf(j.q))
DD == S0(job)[3]
RR == ZOf(RootIn(ZVal(DD)))
Init == /\ job \in Jobs
        /\ st = <<S0(job)[1], S0(job)[2]>>
        /\ hist = <<st>>
        /\ conv = <<<<ZOf(0), ZOf(1)>>, <<ZOf(1), ZOf(0)>>>>
a == FloorOf(st[1], st[2], RR)
Next == /\ Len(hist) < N /\ UNCHANGED job
        /\ st' = NextPQ(st, DD, RR)
        /\ hist' = Append(hist, st')
        /\ conv' = <<conv[2], <<ZAdd(ZMul(a, conv[2][1]), conv[1][1]), ZAdd(ZMul(a, conv[2][2]), conv[1][2])>>>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* sign of (m + sqrt D), m an integer
SgnPlus(m, D) == IF Sgn(m) >= 0 THEN 1 ELSE IF ZLt(ZMul(m, m), D) THEN 1 ELSE -1
\* c <= (P + sqrt D)/Q
AtMost(c, s, D) == Sgn(s[2]) * SgnPlus(ZSub(s[1], ZMul(c, s[2])), D) > 0
FloorRight == AtMost(a, st, DD) /\ ~AtMost(ZAdd(a, ZOf(1)), st, DD)
Divides == ZMod(ZSub(DD, ZMul(st[1], st[1])), Mag(st[2])) = <<>>
\* (x - a) times its successor is one: with P' = aQ - P this is D - P'^2 = Q Q'
Reciprocal == [][LET P == ZSub(ZMul(a, st[2]), st[1]) IN st'[1] = P /\ ZSub(DD, ZMul(P, P)) = ZMul(st[2], st'[2])]_vars
PositiveTail == Len(hist) > 1 => ZLe(ZOf(1), a)
Unimodular == LET e == ZSub(ZMul(conv[2][1], conv[1][2]), ZMul(conv[1][1], conv[2][2])) IN e = ZOf(IF Len(hist) % 2 = 1 THEN 1 ELSE -1)
\* the number lies between consecutive convergents: x = (A1 s + A0)/(B1 s + B0) for the current tail s
Tail0 == \* checked through B1 P + B0 Q and A1 P + A0 Q: (p + w)(B1 (P + w) + B0 Q) = q (A1 (P + w) + A0 Q), w = sqrt D
  LET x0 == hist[1]
      A1 == conv[2][1] A0 == conv[1][1] B1 == conv[2][2] B0 == conv[1][2]
      beta == ZAdd(ZMul(B1, st[1]), ZMul(B0, st[2])) alpha == ZAdd(ZMul(A1, st[1]), ZMul(A0, st[2]))
  IN /\ ZAdd(ZMul(x0[1], beta), ZMul(DD, B1)) = ZMul(x0[2], alpha)
     /\ ZAdd(beta, ZMul(x0[1], B1)) = ZMul(x0[2], A1)
Returns == Len(hist) = N => FirstReturn(hist) # <<>>
Plain == job.p = 0 /\ job.q = 1
\* for sqrt d the norm of a convergent is (-1)^i Q_i
NormLaw == Plain => Norm(DD, conv[2]) = (IF Len(hist) % 2 = 1 THEN st[2] ELSE ZNeg(st[2]))
PeriodLaw == Plain /\ Len(hist) = N => LET f == FirstReturn(hist) IN f[1] = 2 /\ f[2] - f[1] = SqrtPeriod(DD, RR)
\* the unit solutions are the least
LeastUnit == Plain /\ Len(hist) = 1 =>
  \A n \in {1, -1} : LET s == UnitSolution(DD, RR, n) IN
    IF s = <<>> THEN \A y \in 1 .. 300 : ~Sq2(job.d * y * y + n)
    ELSE /\ Norm(DD, s) = ZOf(n)
         /\ \A y \in 1 .. 2000 : ZLt(ZOf(y), s[2]) => ~Sq2(job.d * y * y + n)
=============================================================================
