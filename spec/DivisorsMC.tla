------------------------------ MODULE DivisorsMC ------------------------------
(* Divisor expansion and range factorization as transition systems.
   expand: the odometer over exponent tuples visits each divisor once; the
     counting formulas of Divisors agree with the definitions at its end.
   range: the segmented sieve, one action per prime of a block, with the offset
     formula of the code; every interval [a, b) with b <= X.                  *)
EXTENDS Divisors
CONSTANTS X, XE
VARIABLES alg, arg, st, out
vars == <<alg, arg, st, out>>
Div(n) == { d \in 1 .. n : n % d = 0 }
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
FB(n) == LET f == Factored(n) IN [i \in DOMAIN f |-> <<NOf(f[i][1]), f[i][2]>>]
PrimesUpTo(n) == SetToSortSeq({ p \in 2 .. n : Prime(p) }, <)
Block == Root(arg[2])
Init == \/ /\ alg = "expand" /\ arg \in { <<n>> : n \in 1 .. XE } /\ out = {}
           /\ st = [i \in DOMAIN Factored(arg[1]) |-> 0]
        \/ /\ alg = "range" /\ arg \in { <<a, b>> : a \in 2 .. X, b \in 3 .. X } /\ arg[1] < arg[2] /\ out = <<>>
           \* start of the block, index of the prime, residues, factors found
           /\ st = <<arg[1], 1, [i \in 0 .. Block - 1 |-> arg[1] + i], [i \in 0 .. Block - 1 |-> <<>>]>>
ValueOf(x) == LET f == Factored(arg[1]) IN FoldLeft(LAMBDA m, i : m * f[i][1] ^ x[i], 1, [i \in DOMAIN f |-> i])
\* next tuple of itertools.product: the last position turns fastest
Odo(x) == LET f == Factored(arg[1]) js == { j \in DOMAIN f : x[j] < f[j][2] }
              j == CHOOSE j \in js : \A h \in js : h <= j
          IN IF js = {} THEN <<-1>> ELSE [i \in DOMAIN f |-> IF i < j THEN x[i] ELSE IF i = j THEN x[i] + 1 ELSE 0]
Expand == alg = "expand" /\ st # <<-1>> /\ out' = out \cup {ValueOf(st)} /\ st' = Odo(st) /\ UNCHANGED <<alg, arg>>
RECURSIVE Val(_, _)
Val(m, p) == IF m % p = 0 THEN 1 + Val(m \div p, p) ELSE 0
Offset(start, p) == (((p * ((start \div p) + 1)) - arg[1]) % Block) % p
Ranging == alg = "range" /\ st[1] < arg[2] /\ UNCHANGED <<alg, arg>> /\
  LET ps == PrimesUpTo(Block) start == st[1] IN
  IF st[2] <= Len(ps)
  THEN LET p == ps[st[2]] hit == { i \in 0 .. Block - 1 : i >= Offset(start, p) /\ (i - Offset(start, p)) % p = 0 }
       IN /\ st' = <<start, st[2] + 1, [i \in 0 .. Block - 1 |-> IF i \in hit THEN st[3][i] \div p ^ Val(st[3][i], p) ELSE st[3][i]],
                     [i \in 0 .. Block - 1 |-> IF i \in hit THEN Append(st[4][i], <<p, Val(st[3][i], p)>>) ELSE st[4][i]]>>
          /\ UNCHANGED out
  ELSE LET fin == [i \in 1 .. Block |-> <<start + i - 1, IF st[3][i - 1] = 1 THEN st[4][i - 1] ELSE Append(st[4][i - 1], <<st[3][i - 1], 1>>)>>]
           s2 == start + Block
       IN /\ out' = out \o SelectSeq(fin, LAMBDA y : y[1] < arg[2])
          /\ st' = <<s2, 1, [i \in 0 .. Block - 1 |-> s2 + i], [i \in 0 .. Block - 1 |-> <<>>]>>
Next == Expand \/ Ranging
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
ExpandDone == (alg = "expand" /\ st = <<-1>>) =>
  LET n == arg[1] f == FB(n) IN
  /\ out = Div(n) /\ Tau(f) = Cardinality(out)
  /\ Two(Len(f)) = Cardinality({ d \in Div(n) : Gcd(d, n \div d) = 1 })
  /\ \A d \in Div(n) : UnitaryOf(NOf(d), f) <=> Gcd(d, n \div d) = 1
  /\ (Tau(f) + 1) \div 2 = Cardinality({ d \in Div(n) : d * d <= n })
ExpandFresh == (alg = "expand" /\ st # <<-1>>) => ValueOf(st) \notin out
RangeHits == (alg = "range" /\ st[1] < arg[2] /\ st[2] <= Len(PrimesUpTo(Block))) =>
  LET p == PrimesUpTo(Block)[st[2]] IN Offset(st[1], p) < p /\ (st[1] + Offset(st[1], p)) % p = 0
RangeDone == (alg = "range" /\ st[1] >= arg[2]) =>
  out = [i \in 1 .. arg[2] - arg[1] |-> <<arg[1] + i - 1, Factored(arg[1] + i - 1)>>]
Terminates == <>((alg = "expand" /\ st = <<-1>>) \/ (alg = "range" /\ st[1] >= arg[2]))
=============================================================================
