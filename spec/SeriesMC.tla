-------------------------------- MODULE SeriesMC --------------------------------
(* The power-series recurrences as transition systems, one coefficient a step:
   inversion, Miller's recurrence for positive and negative powers (its divisions
   are exact, every prefix is right), and the pentagonal-number walk of the eta
   expansion, which must reproduce Euler's product.                              *)
EXTENDS PolyArith
CONSTANTS C, N, KMAX, ETA
VARIABLES job, st, phase
vars == <<job, st, phase>>
Coef == { ZOf(c) : c \in -C .. C }
Series == UNION { [1 .. m -> Coef] : m \in 1 .. N }
Units == { f \in Series : Mag(f[1]) = <<1>> }
Init ==
  /\ \/ \E f \in Units : job = [k |-> "invert", f |-> f, n |-> -1] /\ st = [p |-> <<f[1]>>, j |-> 0]
     \/ \E f \in Series, n \in -KMAX .. KMAX : f[1] # Z0 /\ (n < 0 => f \in Units) /\ job = [k |-> "power", f |-> f, n |-> n]
          /\ st = [p |-> <<ZPow(f[1], IF n < 0 THEN -n ELSE n)>>, j |-> 0]
     \/ \E n \in 1 .. ETA : job = [k |-> "eta", f |-> <<>>, n |-> n] /\ st = [p |-> SOne(n), j |-> 1]
  /\ phase = "run"
Invert == LET f == job.f i == Len(st.p) + 1 IN
  IF i > Len(f) THEN phase' = "done" /\ UNCHANGED st
  ELSE st' = [st EXCEPT !.p = Append(@, ZMul(ZNeg(ZSum([j \in 1 .. i - 1 |-> ZMul(f[j + 1], st.p[i - j])])), f[1]))] /\ UNCHANGED phase
Power == LET f == job.f k == job.n i == Len(st.p) IN
  IF i = Len(f) THEN phase' = "done" /\ UNCHANGED st
  ELSE LET ss == ZSum([j \in 1 .. i |-> ZMul(ZMul(f[j + 1], ZOf((k + 1) * j - i)), st.p[(i - j) + 1])]) den == ZMul(ZOf(i), f[1]) IN
       st' = [st EXCEPT !.p = Append(@, IF ZDivides(den, ss) THEN ZQuo(ss, den) ELSE Assert(FALSE, "inexact"))] /\ UNCHANGED phase
\* exponents j(3j - 1)/2 and j(3j + 1)/2 with sign (-1)^j
Eta == LET j == st.j lo == (j * (3 * j - 1)) \div 2 hi == (j * (3 * j + 1)) \div 2 s == ZOf(IF j % 2 = 0 THEN 1 ELSE -1) IN
  IF lo >= job.n THEN phase' = "done" /\ UNCHANGED st
  ELSE st' = [p |-> [i \in 1 .. job.n |-> IF i = lo + 1 \/ i = hi + 1 THEN s ELSE st.p[i]], j |-> j + 1] /\ UNCHANGED phase
Next == /\ phase = "run" /\ UNCHANGED job
        /\ CASE job.k = "invert" -> Invert [] job.k = "power" -> Power [] job.k = "eta" -> Eta
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Pre(f, n) == SubSeq(f, 1, n)
InvertRight == job.k = "invert" => SMul(job.f, st.p, Len(st.p)) = SOne(Len(st.p))
PowerRight == job.k = "power" => LET m == Len(st.p) IN
  IF job.n >= 0 THEN st.p = SPow(Pre(job.f, m), job.n, m) ELSE SMul(SPow(Pre(job.f, m), -job.n, m), st.p, m) = SOne(m)
EtaRight == job.k = "eta" /\ phase = "done" => st.p = EulerProduct(job.n)
\* truncation commutes with multiplication
TruncRight == job.k = "invert" /\ phase = "done" => LET n == Len(job.f) IN
  SMul(job.f, job.f, n) = [i \in 1 .. n |-> PAt(PMul(job.f, job.f), i)]
Terminates == <>(phase = "done")
=============================================================================
