------------------------------- MODULE InverseMC -------------------------------
(* The backtracking over pairs (a, b), "a is odd and phi(a) b = n", one prime per
   step, largest first, and the second algorithm that fills a table of totients;
   both end with the preimage, which is compared with the definition over all
   m <= 2 n^2 (phi(m) >= sqrt(m / 2)).                                         *)
EXTENDS InversePhi
CONSTANTS X
VARIABLES alg, n, i, st
vars == <<alg, n, i, st>>
ASSUME TLCSet(1, TLCEval([m \in 1 .. 2 * X * X |-> SPhi(Factored(m))]))
PhiTab == TLCGet(1)
Def(v) == LET t == PhiTab IN { m \in 1 .. 2 * v * v : t[m] = v }
OddPrimes(v) == SelectSeq(Candidates(v), LAMBDA p : p > 2)
RECURSIVE Pw2(_)
Pw2(v) == IF v % 2 = 0 THEN 2 * Pw2(v \div 2) ELSE 1
Init == /\ n \in 1 .. X /\ i = 1
        /\ \/ alg = "pairs" /\ n % 2 = 0 /\ st = {<<1, n>>}
           \/ alg = "table" /\ n > 1 /\ st = {}
Next ==
  LET ps == IF alg = "pairs" THEN OddPrimes(n) ELSE Candidates(n) IN
  /\ i <= Len(ps) /\ i' = i + 1 /\ UNCHANGED <<alg, n>>
  /\ LET p == ps[i]
         RECURSIVE Ext(_, _, _)
         Ext(a, b, pk) == (IF b % 2 = 0 \/ b = 1 THEN {<<pk * a, b>>} ELSE {}) \cup (IF b % p = 0 THEN Ext(a, b \div p, pk * p) ELSE {})
         \* totient a of p^k with its value
         RECURSIVE Pws(_, _)
         Pws(t, pk) == IF t > n THEN {} ELSE {<<t, pk>>} \cup Pws(t * p, pk * p)
     IN IF alg = "pairs"
        THEN st' = st \cup UNION { IF ab[2] = 1 \/ ab[2] % (p - 1) # 0 THEN {} ELSE Ext(ab[1], ab[2] \div (p - 1), p) : ab \in st }
        ELSE st' = st \cup { tp \in Pws(p - 1, p) : n % tp[1] = 0 }
                      \cup { x \in { <<tp[1] * y[1], tp[2] * y[2]>> : tp \in Pws(p - 1, p), y \in { z \in st : z[1] * (p - 1) <= n } } : x[1] <= n /\ n % x[1] = 0 }
Spec == Init /\ [][Next]_vars
Invariant == alg = "pairs" => \A ab \in st : ab[1] % 2 = 1 /\ PhiTab[ab[1]] * ab[2] = n
InvariantT == alg = "table" => \A tp \in st : PhiTab[tp[2]] = tp[1]
Done == i > Len(IF alg = "pairs" THEN OddPrimes(n) ELSE Candidates(n))
Found == IF alg = "pairs" THEN { 2 * ab[2] * ab[1] : ab \in { x \in st : x[2] = Pw2(x[2]) } } \cup { ab[1] : ab \in { x \in st : x[2] = 1 } }
         ELSE { tp[2] : tp \in { x \in st : x[1] = n } }
Result == Done => Found = Def(n) /\ Preimage(n) = Def(n)
=============================================================================
