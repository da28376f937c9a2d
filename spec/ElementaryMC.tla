------------------------------- MODULE ElementaryMC -------------------------------
(* The algorithms behind the elementary functions as transition systems on
   small integers, each with its loop invariant and its final value:
   extended Euclid, square and multiply, Newton and Halley roots, logarithm by
   repeated squaring, the reciprocity loop, Garner's recombination.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT K
VARIABLES alg, i, s, done       \* i: the input, s: the loop state
vars == <<alg, i, s, done>>
Abs(x) == IF x < 0 THEN -x ELSE x
IsGcd(d, x, y) == d >= 0 /\ (IF x = 0 /\ y = 0 THEN d = 0 ELSE d > 0 /\ x % d = 0 /\ y % d = 0 /\ \A c \in 1 .. K : (x % c = 0 /\ y % c = 0) => c <= d)
RECURSIVE Pow(_, _)
Pow(b, k) == IF k = 0 THEN 1 ELSE b * Pow(b, k - 1)
BitLen(n) == CHOOSE k \in 0 .. 31 : Pow(2, k) > n /\ (k = 0 \/ Pow(2, k - 1) <= n)
\* definition of the Legendre and Jacobi symbols
Primes == { p \in 2 .. K : \A d \in 2 .. p - 1 : p % d # 0 }
RECURSIVE Jac(_, _)
Leg(a, p) == IF a % p = 0 THEN 0 ELSE IF \E x \in 1 .. p - 1 : (x * x) % p = a % p THEN 1 ELSE -1
Jac(a, m) == IF m = 1 THEN 1 ELSE LET p == CHOOSE p \in Primes : m % p = 0 IN Leg(a, p) * Jac(a, m \div p)

\* residues computed by repeated multiplication
RECURSIVE PM(_, _, _)
PM(a, k, m) == IF k = 0 THEN 1 % m ELSE (PM(a, k - 1, m) * a) % m

Start ==
  \/ alg = "euclid" /\ i \in (0 .. K) \X (0 .. K) /\ s = <<1, 0, i[1], 0, 1, i[2]>>
  \/ alg = "power" /\ i \in (0 .. K) \X (0 .. K) \X (1 .. 12) /\ s = <<1 % i[3], i[1] % i[3], i[2]>>
  \/ alg = "sqrt" /\ i \in {<<n>> : n \in 2 .. 40 * K} /\ s = <<Pow(2, BitLen(i[1]) \div 2 + 1)>>
  \/ alg = "root" /\ i \in (3 .. 5) \X (2 .. 12 * K) /\ i[1] < BitLen(i[2]) /\ s = <<Pow(2, BitLen(i[2]) \div i[1] + 1)>>
  \/ alg = "log" /\ i \in (3 .. 7) \X (1 .. 40 * K) /\ i[2] >= i[1] /\ s = <<i[1], 0, 1>>
  \/ alg = "jacobi" /\ i \in { x \in (0 .. K) \X (1 .. K) : x[2] % 2 = 1 } /\ s = <<i[1] % i[2], i[2], 1>>
Init == done = FALSE /\ Start
Next ==
  /\ ~done /\ UNCHANGED <<alg, i>>
  /\ CASE alg = "euclid" ->
            IF s[6] = 0 THEN done' = TRUE /\ UNCHANGED s
            ELSE LET q == s[3] \div s[6] IN s' = <<s[4], s[5], s[6], s[1] - q * s[4], s[2] - q * s[5], s[3] - q * s[6]>> /\ UNCHANGED done
       [] alg = "power" ->
            IF s[3] = 0 THEN done' = TRUE /\ UNCHANGED s
            ELSE s' = <<(IF s[3] % 2 = 1 THEN (s[1] * s[2]) % i[3] ELSE s[1]), (s[2] * s[2]) % i[3], s[3] \div 2>> /\ UNCHANGED done
       [] alg = "sqrt" ->
            LET y == (s[1] + i[1] \div s[1]) \div 2
            IN IF y >= s[1] THEN done' = TRUE /\ UNCHANGED s ELSE s' = <<y>> /\ UNCHANGED done
       [] alg = "root" ->
            LET n == i[1] m == i[2] x == s[1] xn == Pow(x, n)
                num == (n - 1) * xn + (n + 1) * m
                den == (num + 2 * xn) - 2 * m
                y == (x * num) \div den
            IN IF y >= x THEN done' = TRUE /\ UNCHANGED s ELSE s' = <<y>> /\ UNCHANGED done
       [] alg = "log" ->          \* s = <<b^hi (0 once n is passed), lo, hi>>
            LET b == i[1] n == i[2] IN
            IF s[1] # 0 /\ s[1] <= n
            THEN s' = <<(IF s[3] <= 3 THEN s[1] * s[1] ELSE n + 1), s[3], 2 * s[3]>> /\ UNCHANGED done
            ELSE IF s[3] - s[2] > 1
            THEN LET mid == (s[2] + s[3]) \div 2
                 IN s' = (IF Pow(b, mid) > n THEN <<0, s[2], mid>> ELSE <<0, mid, s[3]>>) /\ UNCHANGED done
            ELSE done' = TRUE /\ UNCHANGED s
       [] alg = "jacobi" ->
            LET a == s[1] m == s[2] t == s[3] IN
            IF a = 0 THEN done' = TRUE /\ UNCHANGED s
            ELSE IF a % 2 = 0 THEN s' = <<a \div 2, m, IF m % 8 \in {3, 5} THEN -t ELSE t>> /\ UNCHANGED done
            ELSE s' = <<m % a, a, IF a % 4 = 3 /\ m % 4 = 3 THEN -t ELSE t>> /\ UNCHANGED done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Invariant ==
  CASE alg = "euclid" -> /\ s[1] * i[1] + s[2] * i[2] = s[3] /\ s[4] * i[1] + s[5] * i[2] = s[6]
                         /\ (done => IsGcd(s[3], i[1], i[2]))
    [] alg = "power" -> (s[1] * PM(s[2], s[3], i[3])) % i[3] = PM(i[1], i[2], i[3])
    [] alg = "sqrt" -> /\ (s[1] + 1) * (s[1] + 1) > i[1] /\ (done => s[1] * s[1] <= i[1])
    [] alg = "root" -> /\ Pow(s[1] + 1, i[1]) > i[2] /\ (done => Pow(s[1], i[1]) <= i[2])
    [] alg = "log" -> /\ Pow(i[1], s[2]) <= i[2] /\ (done => Pow(i[1], s[2] + 1) > i[2])
    [] alg = "jacobi" -> /\ Jac(i[1], i[2]) = s[3] * Jac(s[1], s[2])
                         /\ (done => Jac(i[1], i[2]) = IF s[2] = 1 THEN s[3] ELSE 0)
PowerRight == (alg = "power" /\ done) => s[1] = PM(i[1], i[2], i[3])
Terminates == <>done
=============================================================================
