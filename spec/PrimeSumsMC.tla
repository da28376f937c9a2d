------------------------------ MODULE PrimeSumsMC ------------------------------
(* The prime-by-prime summation as a transition system: after the primes up to
   p have been processed, the entry for v is the sum over the numbers in 2 .. v
   that are prime or free of prime factors up to p.                          *)
EXTENDS PrimeSums
CONSTANT X
VARIABLES x, k, p, st
vars == <<x, k, p, st>>
M == 46337
Init == x \in 2 .. X /\ k \in 0 .. 2 /\ p = 1 /\ st = SumsStart(x, k, M)
Next == p < Root(x) /\ p' = p + 1 /\ UNCHANGED <<x, k>>
        /\ st' = (IF p + 1 >= 2 /\ (p + 1 = 2 \/ st[1][p + 1] # st[1][p]) /\ Prime(p + 1) THEN SumsStep(st, x, k, M, p + 1) ELSE st)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Survives(n, q) == Prime(n) \/ \A d \in 2 .. q : n % d # 0
Want(v, q) == FoldLeft(LAMBDA acc, n : IF Survives(n, q) THEN (acc + Weight(n, k, M)) % M ELSE acc, 0, [j \in 1 .. v - 1 |-> j + 1])
Invariant == /\ \A v \in DOMAIN st[1] : st[1][v] = Want(v, p)
             /\ \A j \in DOMAIN st[2] : st[2][j] = Want(x \div j, p)
\* the primality of a number is readable from the state
Readable == \A q \in 2 .. Len(st[1]) : q = p + 1 => (st[1][q] # st[1][q - 1]) = Prime(q)
Result == p = Root(x) => /\ PrimePowerSum(x, k, M) = Want(x, x)
                         /\ st[2][1] = Want(x, x)
Terminates == <>(p >= Root(x))
=============================================================================
