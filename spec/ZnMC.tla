--------------------------------- MODULE ZnMC ---------------------------------
(* The algorithms behind modular equations as one transition system per problem,
   over all small instances: the Tonelli-Shanks digit recovery, root lifting
   along the powers of a prime, Shanks' baby and giant steps, and the order found
   by walking the divisors of phi.  The invariants tie each to the brute-force
   definition and check every counting theorem ZnArith relies on.             *)
EXTENDS ZnArith
CONSTANTS PMAX, QMAX, LMAX, OMAX
VARIABLES job, st, phase
vars == <<job, st, phase>>
RECURSIVE PowM(_, _, _)
PowM(a, k, m) == IF k = 0 THEN 1 % m ELSE LET h == PowM(a, k \div 2, m) s == (h * h) % m IN IF k % 2 = 0 THEN s ELSE (s * a) % m
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Max2(S) == CHOOSE x \in S : \A y \in S : y <= x
SqrtSet(a, m) == { x \in 0 .. m - 1 : (x * x - a) % m = 0 }
Order(a, m) == CHOOSE k \in 1 .. m : PowM(a, k, m) = 1 % m /\ \A h \in 1 .. k - 1 : PowM(a, h, m) # 1 % m
Units(m) == { x \in 0 .. m - 1 : Gcd(x, m) = 1 }
Facs(m) == LET f == Factored(m) IN [i \in DOMAIN f |-> <<NOf(f[i][1]), f[i][2]>>]
Divs(m) == SetToSortSeq({ d \in 1 .. m : m % d = 0 }, <)
ISqrt(m) == Root(m)

Tonelli == { [k |-> "tonelli", p |-> p, a |-> a, d |-> d] : p \in { q \in 17 .. PMAX : q % 8 = 1 /\ Prime(q) }, a \in 1 .. PMAX, d \in 2 .. PMAX }
Jobs == { j \in Tonelli : j.a < j.p /\ j.d < j.p /\ SqrtSet(j.a, j.p) # {} /\ SqrtSet(j.d, j.p) = {} }
  \cup { [k |-> "lift", p |-> p, a |-> a] : p \in {2, 3, 5, 7}, a \in 0 .. QMAX }
  \cup { [k |-> "log", p |-> p, a |-> a, b |-> b] : p \in { q \in 2 .. LMAX : Prime(q) }, a \in 0 .. LMAX, b \in 0 .. LMAX }
  \cup { [k |-> "order", p |-> n, a |-> a] : n \in 1 .. OMAX, a \in 0 .. OMAX }
Twos(m) == CHOOSE s \in 0 .. 20 : m % (2 ^ s) = 0 /\ (m \div 2 ^ s) % 2 = 1
Start(j) ==
  CASE j.k = "tonelli" -> [i |-> 0, m |-> 0]
    [] j.k = "lift" -> [e |-> 1, roots |-> SqrtSet(j.a, j.p)]
    [] j.k = "log" -> [cache |-> <<>>, k |-> 0, x |-> 0]
    [] j.k = "order" -> [i |-> 1, d |-> 0]
Init == job \in { j \in Jobs : j.k \in {"lift"} \/ (j.a < j.p /\ (j.k # "log" \/ j.b < j.p) /\ (j.k # "order" \/ Gcd(j.a, j.p) = 1)) }
        /\ st = Start(job) /\ phase = "run"
StepTonelli ==
  LET p == job.p s == Twos(p - 1) t == (p - 1) \div 2 ^ s
      A == PowM(job.a, t, p) D == PowM(job.d, t, p)
      probe == PowM((A * PowM(D, st.m, p)) % p, 2 ^ ((s - 1) - st.i), p)
  IN IF st.i = s THEN phase' = "done" /\ st' = [x |-> (PowM(job.a, (t + 1) \div 2, p) * PowM(D, st.m \div 2, p)) % p]
     ELSE st' = [i |-> st.i + 1, m |-> IF probe = p - 1 THEN st.m + 2 ^ st.i ELSE st.m] /\ UNCHANGED phase
\* simple roots move to their one lift, double roots to all p lifts or none
Lifts(a, r, p, e) ==
  LET q == p ^ e IN
  IF (2 * r) % p # 0 THEN { x \in { r + t * q : t \in 0 .. p - 1 } : (x * x - a) % (q * p) = 0 }
  ELSE IF (r * r - a) % (q * p) = 0 THEN { r + t * q : t \in 0 .. p - 1 } ELSE {}
StepLift == IF job.p ^ (st.e + 1) > QMAX THEN phase' = "done" /\ UNCHANGED st
            ELSE st' = [e |-> st.e + 1, roots |-> UNION { Lifts(job.a, r, job.p, st.e) : r \in st.roots }] /\ UNCHANGED phase
StepLog ==
  LET m == ISqrt(job.p) + 1 am == PowM(job.a, m, job.p)
      y == (job.b * PowM(job.a, st.k, job.p)) % job.p
      hits == { i \in 1 .. m : Len(st.cache) >= i /\ st.cache[i] = y }
  IN IF Len(st.cache) < m THEN st' = [st EXCEPT !.cache = Append(@, PowM(am, Len(st.cache) + 1, job.p))] /\ UNCHANGED phase
     ELSE IF hits # {} THEN      \* the exponent found is tried before it is returned (it fails only for a = 0)
       LET x == Max2(hits) * m - st.k IN
       phase' = (IF PowM(job.a, x, job.p) = job.b THEN "done" ELSE "none") /\ st' = [st EXCEPT !.x = x]
     ELSE IF st.k = m THEN phase' = "none" /\ UNCHANGED st
     ELSE st' = [st EXCEPT !.k = @ + 1] /\ UNCHANGED phase
StepOrder ==
  LET f == Facs(job.p) ds == Divs(NVal(PhiOf(f))) IN
  IF PowM(job.a, ds[st.i], job.p) = 1 % job.p THEN phase' = "done" /\ st' = [st EXCEPT !.d = ds[st.i]]
  ELSE st' = [st EXCEPT !.i = @ + 1] /\ UNCHANGED phase
Next == phase = "run" /\ UNCHANGED job /\
        CASE job.k = "tonelli" -> StepTonelli [] job.k = "lift" -> StepLift [] job.k = "log" -> StepLog [] job.k = "order" -> StepOrder
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

TonelliRight == job.k = "tonelli" /\ phase = "done" => (st.x * st.x) % job.p = job.a
\* after i rounds A * D^m has order dividing 2^(s-i)
TonelliDigits == job.k = "tonelli" /\ phase = "run" =>
  LET p == job.p s == Twos(p - 1) t == (p - 1) \div 2 ^ s
  IN PowM((PowM(job.a, t, p) * PowM(PowM(job.d, t, p), st.m, p)) % p, 2 ^ (s - st.i), p) = 1
LiftRight == job.k = "lift" => st.roots = SqrtSet(job.a, job.p ^ st.e)
SqrtCounts == job.k = "lift" => SqrtCount(NOf(job.a), NOf(job.p), st.e) = NOf(Cardinality(st.roots))
PowersOf(a, p) == { PowM(a, k, p) : k \in 1 .. p }
LogRight == job.k = "log" =>
  /\ phase = "done" => PowM(job.a, st.x, job.p) = job.b /\ st.x >= 1
  /\ phase = "none" => job.b \notin PowersOf(job.a, job.p)
LogTheory == job.k = "log" /\ st.k = 0 /\ st.cache = <<>> =>
  (IsPowerOf(NOf(job.a), NOf(job.b), NOf(job.p), NOf(IF job.a = 0 THEN 1 ELSE Order(job.a, job.p))) <=> job.b \in PowersOf(job.a, job.p))
OrderRight == job.k = "order" /\ phase = "done" =>
  /\ st.d = Order(job.a, job.p)
  /\ \A k \in 1 .. job.p : HasOrder(NOf(job.a), NOf(k), Facs(k), NOf(job.p)) <=> k = st.d
GeneratorTheory == job.k = "order" /\ phase = "done" /\ job.p >= 2 =>
  LET n == job.p f == Facs(n) phi == PhiOf(f)
      isgen == Order(job.a, n) = Cardinality(Units(n))
  IN /\ phi = NOf(Cardinality(Units(n)))
     /\ Generates(NOf(job.a), NOf(n), phi, Facs(NVal(phi))) <=> isgen
     /\ (\E a \in Units(n) : Order(a, n) = Cardinality(Units(n))) <=> Cyclic(f)
QuadCounts == job.k = "order" /\ phase = "done" /\ job.p >= 2 =>
  LET n == job.p fn == Facs(n) IN
  \A b \in 0 .. 3, c \in {0, 1, 2, n - 1} :
    LET cc == <<ZOf(job.a), ZOf(b), ZOf(c)>> brute == NOf(Cardinality({ x \in 0 .. n - 1 : (job.a * x * x + b * x + c) % n = 0 }))
    IN QuadCountN(cc, fn) = brute
Terminates == <>(phase # "run")
=============================================================================
