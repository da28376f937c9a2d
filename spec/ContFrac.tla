-------------------------------- MODULE ContFrac --------------------------------
(* Continued fractions of (P + sqrt D)/Q with Q dividing D - P^2 (N15).  A state
   is <<P, Q>>; its quotient is the floor, the next state is the reciprocal of
   the fractional part.  ContFracMC checks both steps against the definition by
   exact comparison of squares.  Everything in limb integers.                  *)
EXTENDS Big, Judge
\* the state of (p + sqrt d)/q, scaled so that the denominator divides: <<P, Q, D>>
Scaled(d, p, q) ==
  IF ZMod(ZSub(d, ZMul(p, p)), Mag(q)) = <<>> THEN <<p, q, d>>
  ELSE <<ZMul(ZAbs(q), p), ZMul(ZAbs(q), q), ZMul(ZMul(q, q), d)>>
IsRoot(r, D) == Sgn(r) >= 0 /\ ZLe(ZMul(r, r), D) /\ ZLt(D, ZMul(ZAdd(r, ZOf(1)), ZAdd(r, ZOf(1))))
FloorOf(P, Q, r) == IF Sgn(Q) > 0 THEN ZDivMod(ZAdd(P, r), Mag(Q))[1]
                    ELSE ZDivMod(ZNeg(ZAdd(ZAdd(P, r), ZOf(1))), Mag(Q))[1]
\* exact quotient of a multiple
ZExact(x, y) == LET m == NDivMod(Mag(x), Mag(y)) IN IF m[2] # <<>> THEN Assert(FALSE, "inexact division") ELSE Z(Sgn(x) * Sgn(y), m[1])
NextPQ(s, D, r) == LET a == FloorOf(s[1], s[2], r)
                       P == TLCEval(ZSub(ZMul(a, s[2]), s[1]))
                   IN <<P, TLCEval(ZExact(ZSub(D, ZMul(P, P)), s[2]))>>
\* the first n states, and from them the quotients and convergents <<x, y>>
States(s, D, r, n) == FoldLeft(LAMBDA acc, i : Append(acc, TLCEval(NextPQ(acc[i], D, r))), <<s>>, [i \in 1 .. n - 1 |-> i])
Quots(ss, r) == [i \in DOMAIN ss |-> FloorOf(ss[i][1], ss[i][2], r)]
Convs(qs) ==
  SubSeq(FoldLeft(LAMBDA acc, q : LET n == Len(acc) IN
           Append(acc, TLCEval(<<ZAdd(ZMul(q, acc[n][1]), acc[n - 1][1]), ZAdd(ZMul(q, acc[n][2]), acc[n - 1][2])>>)),
           <<<<ZOf(0), ZOf(1)>>, <<ZOf(1), ZOf(0)>>>>, qs), 3, Len(qs) + 2)
\* the first return of a state: <<i, j>> with i < j least, or <<>> when there is none
FirstReturn(ss) ==
  LET hit == { j \in 2 .. Len(ss) : \E i \in 1 .. j - 1 : ss[i] = ss[j] }
  IN IF hit = {} THEN <<>>
     ELSE LET j == CHOOSE x \in hit : \A y \in hit : x <= y IN <<CHOOSE i \in 1 .. j - 1 : ss[i] = ss[j], j>>

(* sqrt D: the period and the unit equations (N16) *)
RECURSIVE Cycle(_, _, _)
Cycle(ss, D, r) ==            \* states 0 .. L of sqrt D, L the period (the first return to Q = 1)
  LET s == ss[Len(ss)] IN IF Len(ss) > 1 /\ s[2] = ZOf(1) THEN ss ELSE Cycle(Append(ss, TLCEval(NextPQ(s, D, r))), D, r)
SqrtStates(D, r) == TLCEval(Cycle(<<<<ZOf(0), ZOf(1)>>>>, D, r))
SqrtPeriod(D, r) == Len(SqrtStates(D, r)) - 1
SqrtConvs(D, r, k) ==         \* the first k convergents
  LET c == SqrtStates(D, r) qs == Quots(c, r) L == Len(c) - 1
  IN Convs([i \in 1 .. k |-> IF i = 1 THEN qs[1] ELSE qs[((i - 2) % L) + 2]])
UnitSolution(D, r, n) ==      \* the least positive solution of x^2 - D y^2 = n, n = 1 or -1; <<>> when there is none
  LET L == SqrtPeriod(D, r) IN
  IF n = -1 /\ L % 2 = 0 THEN <<>>
  ELSE LET k == IF n = 1 /\ L % 2 = 1 THEN 2 * L ELSE L IN SqrtConvs(D, r, k)[k]
Norm(D, s) == ZSub(ZMul(s[1], s[1]), ZMul(D, ZMul(s[2], s[2])))
Times(D, s, t) == <<ZAdd(ZMul(s[1], t[1]), ZMul(D, ZMul(s[2], t[2]))), ZAdd(ZMul(s[1], t[2]), ZMul(s[2], t[1]))>>

\* the text form
Show(z) == IF Sgn(z) < 0 THEN "-" \o ToString(NVal(Mag(z))) ELSE ToString(NVal(Mag(z)))
Text(d, p, q) ==
  "Continued Fraction Expansion of " \o
  (IF Sgn(p) = 0 THEN (IF q = ZOf(1) THEN "sqrt(" \o Show(d) \o ")" ELSE "sqrt(" \o Show(d) \o ")/" \o Show(q))
   ELSE IF q = ZOf(1) THEN Show(p) \o " + sqrt(" \o Show(d) \o ")"
   ELSE "(" \o Show(p) \o " + sqrt(" \o Show(d) \o "))/" \o Show(q))

IsSquareBy(r, d) == IF IsRoot(r, d) THEN ZMul(r, r) = d ELSE Assert(FALSE, "bad root certificate")
ContFracVerdict(e) ==
  LET a == e.in IN
  IF IsSquareBy(a.rd, a.d) THEN Raises(e.out, "ValueError")
  ELSE IF e.op = "repr" THEN Is(e.out, Text(a.d, a.p, a.q))
  ELSE LET s == Scaled(a.d, a.p, a.q) IN
       IF ~IsRoot(a.r, s[3]) THEN Assert(FALSE, "bad root certificate")
       ELSE LET ss == TLCEval(States(<<s[1], s[2]>>, s[3], a.r, a.n)) qs == TLCEval(Quots(ss, a.r)) IN
            IF e.op = "quotients" THEN Is(e.out, qs)
            ELSE IF e.op = "again" THEN Is(e.out, SubSeq(qs, a.skip + 1, a.n))
            ELSE IF e.op = "convergents" THEN Is(e.out, Convs(qs))
            ELSE \* "period"
              LET f == FirstReturn(ss) IN IF f = <<>> THEN Assert(FALSE, "too few states") ELSE Is(e.out, f[2] - f[1])
=============================================================================
