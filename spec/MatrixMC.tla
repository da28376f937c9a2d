------------------------------- MODULE MatrixMC -------------------------------
(* Fraction-free elimination with row exchanges as a transition system, checked
   against the Leibniz formula over all small matrices: every division is exact,
   every intermediate entry is the minor it should be, and the ring identities
   of the operators hold.                                                       *)
EXTENDS MatArith
CONSTANTS LO, HI, SIZES
VARIABLES A, m, d, s, phase, exact
MinusOne == -1
vars == <<A, m, d, s, phase, exact>>
Coef == { ZOf(c) : c \in LO .. HI }
Square(n) == [1 .. n -> [1 .. n -> Coef]]
Perms(n) == { p \in [1 .. n -> 1 .. n] : \A i, j \in 1 .. n : i # j => p[i] # p[j] }
Odd(p) == Cardinality({ <<i, j>> \in (DOMAIN p) \X (DOMAIN p) : i < j /\ p[i] > p[j] }) % 2 = 1
RECURSIVE Prod(_, _, _)
Prod(M, p, i) == IF i > Len(M) THEN Z1 ELSE ZMul(M[i][p[i]], Prod(M, p, i + 1))
RECURSIVE SumOver(_, _)
SumOver(S, M) == IF S = {} THEN Z0
                 ELSE LET p == CHOOSE q \in S : TRUE t == Prod(M, p, 1) IN ZAdd(IF Odd(p) THEN ZNeg(t) ELSE t, SumOver(S \ {p}, M))
Leibniz(M) == SumOver(Perms(Len(M)), M)
\* sparse ones of the largest size, with every row a unit vector, zero, or dense
Init == /\ \E n \in SIZES : A \in Square(n)
        /\ m = A /\ d = Z1 /\ s = 1 /\ phase = "run" /\ exact = TRUE
Exchange == /\ phase = "run" /\ m[1][1] = Z0 /\ Pivot(m) # {}
            /\ \E i \in Pivot(m) : m' = Swap(m, i)           \* any pivot will do
            /\ s' = -s /\ UNCHANGED <<A, d, phase, exact>>
Singular == phase = "run" /\ Pivot(m) = {} /\ m' = <<<<Z0>>>> /\ phase' = "done" /\ UNCHANGED <<A, d, s, exact>>
Step == /\ phase = "run" /\ m[1][1] # Z0
        /\ IF Len(m) = 1 THEN phase' = "done" /\ UNCHANGED <<m, d, exact>>
           ELSE /\ m' = Eliminate(m, d) /\ d' = m[1][1]
                /\ exact' = (\A i, j \in 1 .. Len(m) - 1 : ZDivides(d, ZSub(ZMul(m[1][1], m[i + 1][j + 1]), ZMul(m[i + 1][1], m[1][j + 1]))))
                /\ UNCHANGED phase
        /\ UNCHANGED <<A, s>>
Next == Exchange \/ Singular \/ Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Result == IF s > 0 THEN m[1][1] ELSE ZNeg(m[1][1])
Exact == exact
DetRight == phase = "done" => Result = Leibniz(A) /\ Det(A) = Leibniz(A)
\* the determinant of what is left times sign and pivots tells det A throughout (Sylvester)
Sylvester == phase = "run" /\ Len(m) >= 1 =>
  LET k == Len(m) - 1 l == Leibniz(m) IN
  \* det m = det A * d^(k), up to the exchanges made
  l = ZMul(ZMul(IF s > 0 THEN Z1 ELSE ZNeg(Z1), Leibniz(A)), ZPow(d, k))
Transpose(M) == [i \in DOMAIN M[1] |-> [j \in DOMAIN M |-> M[j][i]]]
Unit(n) == [i \in 1 .. n |-> [j \in 1 .. n |-> IF i = j THEN Z1 ELSE Z0]]
Adjugate(M) == [i \in DOMAIN M |-> [j \in DOMAIN M |-> LET t == Leibniz(DropCol(DropRow(M, j), i)) IN IF (i + j) % 2 = 0 THEN t ELSE ZNeg(t)]]
Ring == phase = "done" /\ Len(A) > 1 =>
  /\ MMul(A, Adjugate(A)) = MScale(Unit(Len(A)), Leibniz(A))
  /\ Det(Transpose(A)) = Det(A)
  /\ MMul(A, Unit(Len(A))) = A
  /\ Det(MMul(A, A)) = ZMul(Det(A), Det(A))
  /\ MSub(MAdd(A, A), A) = A
  /\ Transpose(MMul(A, DropCol(A, 1))) = MMul(Transpose(DropCol(A, 1)), Transpose(A))
Terminates == <>(phase = "done")
=============================================================================
