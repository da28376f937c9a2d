------------------------------- MODULE OptimiseMC -------------------------------
(* The searches as transition systems: the two-list walk for the largest divisor
   (over every n, bound and split of the primes), the exponent backtracking for
   most divisors, and the Bernoulli recurrence one index at a time.            *)
EXTENDS Optimise
CONSTANTS NMAX, BMAX, M
VARIABLES job, st, phase
vars == <<job, st, phase>>
Divs(n) == { d \in 1 .. n : n % d = 0 }
RECURSIVE ProdsOf(_, _)
ProdsOf(f, b) == IF f = <<>> THEN {1} ELSE { y \in { x * f[1][1] ^ i : x \in ProdsOf(Tail(f), b), i \in 0 .. f[1][2] } : y <= b }
Up(S) == SetToSortSeq(S, <)
Down(S) == SetToSortSeq(S, >)
Max2(S) == CHOOSE x \in S : \A y \in S : y <= x
Init ==
  /\ \/ \E n \in 2 .. NMAX, b \in 1 .. NMAX : \E k \in 0 .. Len(Factored(n)) :
          /\ b <= n /\ job = [k |-> "meet", n |-> n, b |-> b]
          /\ st = LET f == Factored(n) IN [lo |-> Up(ProdsOf(SubSeq(f, 1, k), b)), hi |-> Down(ProdsOf(SubSeq(f, k + 1, Len(f)), b)), i |-> 1, j |-> 1, best |-> 0]
     \/ \E b \in 1 .. BMAX : job = [k |-> "most", n |-> 0, b |-> b] /\ st = [stack |-> <<<<1, 1, 30, 1>>>>, best |-> <<1, 1>>]
     \/ job = [k |-> "bernoulli", n |-> 0, b |-> 0] /\ st = [bs |-> <<<<ZOf(1), ZOf(1)>>>>]
  /\ phase = "run"
Meet == IF st.i > Len(st.lo) \/ st.j > Len(st.hi) THEN phase' = "done" /\ UNCHANGED st
        ELSE LET c == st.lo[st.i] * st.hi[st.j] IN
             IF c > job.b THEN st' = [st EXCEPT !.j = @ + 1] /\ UNCHANGED phase
             ELSE st' = [st EXCEPT !.i = @ + 1, !.best = IF c > @ THEN c ELSE @] /\ UNCHANGED phase
\* stack entries <<number, next prime, largest exponent, divisors>>
Most == IF st.stack = <<>> THEN phase' = "done" /\ UNCHANGED st
        ELSE LET s == Head(st.stack)
                 kids == { k \in 1 .. s[3] : k <= 12 /\ s[1] * PL[s[2]] ^ k <= job.b }
                 next == [x \in 1 .. Cardinality(kids) |-> LET k == x IN <<s[1] * PL[s[2]] ^ k, s[2] + 1, k, s[4] * (k + 1)>>]
             IN st' = [stack |-> next \o Tail(st.stack), best |-> IF s[4] > st.best[2] THEN <<s[1], s[4]>> ELSE st.best] /\ UNCHANGED phase
\* B_m from its predecessors: zero for odd m > 1
QAdd(x, y) == <<ZAdd(ZMul(x[1], y[2]), ZMul(y[1], x[2])), ZMul(x[2], y[2])>>
QRed(x) == LET g == NGcd(Mag(x[1]), Mag(x[2])) IN <<Z(Sgn(x[1]), NDiv(Mag(x[1]), g)), Z(1, NDiv(Mag(x[2]), g))>>
Bern == LET m == Len(st.bs) IN
        IF m > M THEN phase' = "done" /\ UNCHANGED st
        ELSE LET row == BinomRow(m + 1)
                 s == FoldLeft(LAMBDA t, k : QRed(QAdd(t, <<ZMul(ZNat(row[k]), st.bs[k][1]), st.bs[k][2]>>)), <<ZOf(0), ZOf(1)>>, [k \in 1 .. m |-> k])
             IN st' = [bs |-> Append(st.bs, QRed(<<ZNeg(s[1]), ZMul(s[2], ZOf(m + 1))>>))] /\ UNCHANGED phase
Next == phase = "run" /\ UNCHANGED job /\ CASE job.k = "meet" -> Meet [] job.k = "most" -> Most [] job.k = "bernoulli" -> Bern
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
MeetRight == job.k = "meet" /\ phase = "done" =>
  /\ st.best = Max2({ d \in Divs(job.n) : d <= job.b })
  /\ NOf(st.best) = Largest(DivisorsUpTo([i \in DOMAIN Factored(job.n) |-> <<NOf(Factored(job.n)[i][1]), Factored(job.n)[i][2]>>], NOf(job.b)))
\* a product that was passed is never the answer
MeetSafe == job.k = "meet" =>
  LET ans == Max2({ d \in Divs(job.n) : d <= job.b }) IN
  st.best = ans \/ \E x \in st.i .. Len(st.lo), y \in st.j .. Len(st.hi) : st.lo[x] * st.hi[y] = ans
Tau(n) == Cardinality(Divs(n))
MostRight == job.k = "most" /\ phase = "done" =>
  /\ st.best[1] <= job.b /\ Tau(st.best[1]) = st.best[2]
  /\ \A n \in 1 .. job.b : Tau(n) <= st.best[2]
  /\ MostDivisors(NOf(job.b)) = st.best[2]
BernoulliRight == job.k = "bernoulli" => /\ FirstBadLazy(st.bs, Len(st.bs) - 1) = "ok"
                                         /\ \A i \in 4 .. Len(st.bs) : i % 2 = 0 => st.bs[i] = <<ZOf(0), ZOf(1)>>
                                         \* von Staudt and Clausen
                                         /\ \A i \in 3 .. Len(st.bs) : i % 2 = 1 => Mag(st.bs[i][2]) = NProd([x \in 1 .. Cardinality({ p \in 2 .. i : Prime(p) /\ (i - 1) % (p - 1) = 0 }) |->
                                                NOf(Up({ p \in 2 .. i : Prime(p) /\ (i - 1) % (p - 1) = 0 })[x])])
Terminates == <>(phase = "done")
=============================================================================
