------------------------------- MODULE MatArith -------------------------------
(* Integer matrices over limb integers, the determinant by definition (a signed
   sum over permutations, for the model) and by fraction-free elimination with
   exact divisions; MatrixMC shows they agree.                                   *)
EXTENDS Big
Z0 == <<0>>
Z1 == <<1, 1>>
NRows(M) == Len(M)
NCols(M) == Len(M[1])
SameShape(M, N) == NRows(M) = NRows(N) /\ NCols(M) = NCols(N)
MAdd(M, N) == [i \in DOMAIN M |-> [j \in DOMAIN M[1] |-> ZAdd(M[i][j], N[i][j])]]
MNeg(M) == [i \in DOMAIN M |-> [j \in DOMAIN M[1] |-> ZNeg(M[i][j])]]
MSub(M, N) == MAdd(M, MNeg(N))
MScale(M, c) == [i \in DOMAIN M |-> [j \in DOMAIN M[1] |-> ZMul(c, M[i][j])]]
MMul(M, N) == [i \in DOMAIN M |-> [j \in DOMAIN N[1] |-> ZSum([k \in DOMAIN N |-> ZMul(M[i][k], N[k][j])])]]
DropRow(M, i) == SubSeq(M, 1, i - 1) \o SubSeq(M, i + 1, Len(M))
DropCol(M, j) == [i \in DOMAIN M |-> SubSeq(M[i], 1, j - 1) \o SubSeq(M[i], j + 1, Len(M[i]))]
ZDivides(a, b) == IF Sgn(a) = 0 THEN Sgn(b) = 0 ELSE ZMod(b, Mag(a)) = <<>>
ZQuo(x, y) == Z(Sgn(x) * Sgn(y), NDiv(Mag(x), Mag(y)))         \* for y dividing x
\* one step of elimination on the square matrix M with previous pivot d: <<new matrix without its first row and column, pivot, sign>>
Pivot(M) == { i \in DOMAIN M : M[i][1] # Z0 }
Swap(M, i) == [r \in DOMAIN M |-> IF r = 1 THEN M[i] ELSE IF r = i THEN M[1] ELSE M[r]]
Eliminate(M, d) == [i \in 1 .. Len(M) - 1 |-> [j \in 1 .. Len(M) - 1 |->
                      TLCEval(ZQuo(ZSub(ZMul(M[1][1], M[i + 1][j + 1]), ZMul(M[i + 1][1], M[1][j + 1])), d))]]
RECURSIVE DetFrom(_, _, _)
DetFrom(M, d, s) ==
  IF Pivot(M) = {} THEN Z0
  ELSE LET i == CHOOSE x \in Pivot(M) : \A y \in Pivot(M) : x <= y
           P == IF i = 1 THEN M ELSE Swap(M, i)
           t == IF i = 1 THEN s ELSE -s
       IN IF Len(M) = 1 THEN (IF t > 0 THEN P[1][1] ELSE ZNeg(P[1][1])) ELSE DetFrom(TLCEval(Eliminate(P, d)), P[1][1], t)
Det(M) == DetFrom(M, Z1, 1)
=============================================================================
