------------------------------- MODULE SievesMC -------------------------------
(* The array sieves as transition systems: which indices are struck out, in
   which order, for the wheels {2} and {2, 3} (two index schemes) and for the
   linear sieve.  Struck numbers are composite, no composite that should have
   been struck is left, and the survivors are the primes.                    *)
EXTENDS PrimeSums
CONSTANT X
VARIABLES alg, n, i, out, aux
vars == <<alg, n, i, out, aux>>
\* the wheel {2,3}: length adjusted to a multiple of 6
N6 == LET u == n + 1 IN CASE u % 6 = 0 -> u [] u % 6 = 1 -> u - 1 [] OTHER -> u + (6 - (u % 6))
Num23(j) == IF (3 * j + 1) % 2 = 1 THEN 3 * j + 1 ELSE 3 * j + 2
Steps(a, d, m) == { x \in 0 .. m - 1 : x >= a /\ (x - a) % d = 0 }
Init == out = {} /\ (\/ alg = "odd" /\ n \in 2 .. X /\ i = 1 /\ aux = <<0>>
                     \/ alg = "wheel" /\ n \in 4 .. X /\ i = 1 /\ aux = <<0>>
                     \/ alg = "luo" /\ n \in 7 .. X /\ i = 1 /\ aux = <<0, 1, 2>>
                     \/ alg = "linear" /\ n \in 2 .. X /\ i = 2 /\ aux = <<0>>)
Size == CASE alg = "odd" -> n \div 2 + 1 [] alg \in {"wheel", "luo"} -> N6 \div 3 [] OTHER -> n + 1
End == CASE alg = "odd" -> Root(n \div 2 + 1) [] alg = "wheel" -> Root(N6) \div 3 [] alg = "luo" -> Root(N6) [] OTHER -> n \div 2
Next ==
  /\ i <= End /\ i' = i + 1 /\ UNCHANGED <<alg, n>>
  /\ CASE alg = "odd" -> LET k == 2 * i + 1 IN
            /\ out' = (IF i \in out THEN out ELSE out \cup Steps((k * k) \div 2, k, Size)) /\ UNCHANGED aux
       [] alg = "wheel" -> LET k == Num23(i) kk == k * k IN
            /\ out' = (IF i \in out THEN out
                       ELSE out \cup Steps(kk \div 3, 2 * k, Size) \cup Steps(((kk + 4 * k) - 2 * k * (i % 2)) \div 3, 2 * k, Size)) /\ UNCHANGED aux
       [] alg = "luo" -> LET k == 3 - aux[2] a == aux[1] + 4 * k * i t == aux[3] + 4 * k b == a + 2 * i * (3 - k) + 1 IN
            /\ aux' = <<a, k, t>>
            /\ out' = (IF i \in out THEN out ELSE out \cup Steps(a, t, Size) \cup Steps(b, t, Size))
       [] OTHER -> LET ps == PrimesTo(Root(n))
                       use == { j \in DOMAIN ps : ps[j] * i <= n /\ \A h \in 1 .. j - 1 : i % ps[h] # 0 }
                   IN out' = out \cup { ps[j] * i : j \in use } /\ aux' = <<aux[1] + Cardinality(use)>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Value(j) == CASE alg = "odd" -> 2 * j + 1 [] alg \in {"wheel", "luo"} -> Num23(j) [] OTHER -> j
OnlyComposites == \A j \in out : ~Prime(Value(j))
\* every composite with its smallest factor already processed is struck
Progressing == alg \in {"odd", "wheel", "luo"} =>
  \A j \in 1 .. Size - 1 : (~Prime(Value(j)) /\ Spf(Value(j)) < Value(i)) => j \in out
Survivors == CASE alg = "odd" -> {2} \cup { 2 * j + 1 : j \in { h \in 1 .. ((n \div 2) + (n % 2)) - 1 : h \notin out } }
               [] alg \in {"wheel", "luo"} ->
                    LET off == IF (n + 1) % 6 > 1 THEN 1 ELSE 0
                    IN {2, 3} \cup { Num23(j) : j \in { h \in 1 .. (N6 \div 3 - off) - 1 : h \notin out } }
               [] OTHER -> { j \in 2 .. n : j \notin out }
Result == i > End => Survivors = { q \in 2 .. n : Prime(q) }
\* the linear sieve strikes no number twice
Linear == alg = "linear" => aux[1] = Cardinality(out)
Terminates == <>(i > End)
=============================================================================
