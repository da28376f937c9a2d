-------------------------------- MODULE ArithMC --------------------------------
(* The formulas of ArithFun against the definitions, number by number, and the
   table sieves as transition systems (one action per prime power or divisor).
   n runs through all table sizes up to X.                                     *)
EXTENDS ArithFun
CONSTANTS X, XD
VARIABLES alg, n, i, st
vars == <<alg, n, i, st>>
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Units(m) == { a \in 1 .. m : Gcd(a, m) = 1 }
DPhi(m) == Cardinality(Units(m))
Divs(m) == { d \in 1 .. m : m % d = 0 }
DMu(m) == IF \E d \in 2 .. m : m % (d * d) = 0 THEN 0
          ELSE IF Cardinality({ p \in Divs(m) : Prime(p) }) % 2 = 0 THEN 1 ELSE -1
DSigma(m, k) == FoldLeft(LAMBDA t, d : t + d ^ k, 0, SetToSeq(Divs(m)))
PowMod(a, k, m) == FoldLeft(LAMBDA t, j : (t * a) % m, 1 % m, [j \in 1 .. k |-> j])
DLambda(m) == CHOOSE k \in 1 .. m : /\ \A a \in Units(m) : PowMod(a, k, m) = 1 % m
                                    /\ \A h \in 1 .. k - 1 : \E a \in Units(m) : PowMod(a, h, m) # 1 % m
Sum(F(_), m) == FoldLeft(LAMBDA t, j : t + F(j), 0, [j \in 1 .. m |-> j])
PrimesUpTo(m) == SetToSortSeq({ p \in 2 .. m : Prime(p) }, <)
RECURSIVE Pw(_, _)
Pw(p, m) == IF m < p THEN 0 ELSE 1 + Pw(p, m \div p)
\* prime powers in the order the sieves take them
Steps(m) == FlattenSeq([j \in DOMAIN PrimesUpTo(m) |-> LET p == PrimesUpTo(m)[j] es == 1 .. Pw(p, m)
                                                       IN [e \in 1 .. Cardinality(es) |-> <<p, e>>]])
\* constant tables, evaluated once into registers
ASSUME TLCSet(1, TLCEval([m \in 1 .. X |-> TLCEval(Steps(m))]))
StepTab == TLCGet(1)
ASSUME TLCSet(2, TLCEval([m \in 1 .. X |-> TLCEval(PrimesUpTo(m))]))
PrimeTab == TLCGet(2)
ASSUME TLCSet(3, TLCEval([m \in 1 .. X |-> DPhi(m)]))
PhiTab == TLCGet(3)
ASSUME TLCSet(4, TLCEval([m \in 1 .. X |-> DMu(m)]))
MuTab == TLCGet(4)
ASSUME TLCSet(5, TLCEval([m \in 1 .. X |-> [k \in 0 .. 2 |-> DSigma(m, k)]]))
SigTab == TLCGet(5)
Init == /\ n \in 1 .. X /\ i = 1
        /\ \/ alg \in {"phi", "sigma1", "sigma2"} /\ st = [j \in 1 .. n |-> 1]
           \/ alg = "mu" /\ st = [j \in 1 .. n |-> <<1, 1>>]
           \/ alg \in {"tau", "sigmah"} /\ st = [j \in 1 .. n |-> 0]
           \/ alg = "def" /\ n <= XD /\ st = <<>>
Count == CASE alg \in {"phi", "sigma1", "sigma2"} -> Len(StepTab[n]) [] alg = "mu" -> Len(PrimeTab[Root(n)]) [] alg \in {"tau", "sigmah"} -> Root(n) [] OTHER -> 0
K == IF alg = "sigma2" THEN 2 ELSE 1
Next ==
  /\ i <= Count /\ i' = i + 1 /\ UNCHANGED <<alg, n>>
  /\ CASE alg = "phi" -> LET p == StepTab[n][i][1] e == StepTab[n][i][2] IN
            st' = [j \in 1 .. n |-> IF j % p ^ e = 0 THEN st[j] * (IF e = 1 THEN p - 1 ELSE p) ELSE st[j]]
       [] alg \in {"sigma1", "sigma2"} -> LET p == StepTab[n][i][1] e == StepTab[n][i][2] q == p ^ K IN
            st' = [j \in 1 .. n |-> IF j % p ^ e = 0 THEN (st[j] \div ((q ^ e - 1) \div (q - 1))) * ((q ^ (e + 1) - 1) \div (q - 1)) ELSE st[j]]
       [] alg = "mu" -> LET p == PrimeTab[Root(n)][i] IN
            st' = [j \in 1 .. n |-> IF j % p # 0 THEN st[j] ELSE IF j % (p * p) = 0 THEN <<0, st[j][2]>> ELSE <<-st[j][1], st[j][2] * p>>]
       [] OTHER ->      \* hyperbola: the pair (d, j/d) with the smaller divisor i
            st' = [j \in 1 .. n |-> IF j = i * i THEN st[j] + (IF alg = "tau" THEN 1 ELSE i)
                                    ELSE IF j % i = 0 /\ j \div i > i THEN st[j] + (IF alg = "tau" THEN 2 ELSE i + (j \div i)) ELSE st[j]]
Spec == Init /\ [][Next]_vars
Final == i > Count
Tables == Final =>
  CASE alg = "phi" -> \A j \in 1 .. n : st[j] = PhiTab[j]
    [] alg = "sigma1" -> \A j \in 1 .. n : st[j] = SigTab[j][1]
    [] alg = "sigma2" -> \A j \in 1 .. n : st[j] = SigTab[j][2]
    [] alg = "mu" -> \A j \in 1 .. n : (IF st[j][1] # 0 /\ st[j][2] < j THEN -st[j][1] ELSE st[j][1]) = MuTab[j]
    [] alg = "tau" -> \A j \in 1 .. n : st[j] = SigTab[j][0]
    [] alg = "sigmah" -> \A j \in 1 .. n : st[j] = SigTab[j][1]
    [] OTHER -> TRUE
\* the exactness of the intermediate divisions in sigma_list
SigmaExact == (alg \in {"sigma1", "sigma2"} /\ ~Final) =>
  LET p == StepTab[n][i][1] e == StepTab[n][i][2] q == p ^ K IN
  \A j \in 1 .. n : j % p ^ e = 0 => st[j] % ((q ^ e - 1) \div (q - 1)) = 0
Definitions == alg = "def" =>
  LET f == Factored(n) b == Bigs(f) IN
  /\ NVal(FPhi(b)) = PhiTab[n] /\ SPhi(f) = PhiTab[n] /\ FMu(b) = MuTab[n] /\ FTau(b) = Cardinality(Divs(n))
  /\ \A k \in 0 .. 2 : NVal(FSigma(b, k)) = SigTab[n][k]
  /\ SSigma1(f) = SigTab[n][1]
  /\ (n <= 60 => NVal(FLambda(b)) = DLambda(n))
  /\ \A m \in {32749, 101} :
       /\ MuSumMod(n, m) = ((Sum(LAMBDA j : MuTab[j], n) % m) + m) % m
       /\ PhiSumMod(n, m) = Sum(LAMBDA j : PhiTab[j], n) % m
       /\ WPhiSumMod(n, m) = Sum(LAMBDA j : j * PhiTab[j], n) % m
       /\ SigmaSumMod(n, m) = Sum(LAMBDA j : SigTab[j][1], n) % m
=============================================================================
