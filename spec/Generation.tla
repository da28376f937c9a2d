----------------------------- MODULE Generation -----------------------------
(* C01, C02: generators of arrangements, variations, combinations, partitions
   and tuples.  An answer is characterised completely by: every item is of the
   right kind, items are pairwise different (strictly increasing where an order
   is promised), and their number is the number of such objects, computed here
   by recurrences that share nothing with the code.                          *)
EXTENDS Judge, SequencesExt, FiniteSetsExt

Range1(s) == { s[i] : i \in DOMAIN s }
Mult(s, x) == Cardinality({ i \in DOMAIN s : s[i] = x })
RECURSIVE Binom(_, _)
Binom(n, k) == IF k < 0 \/ k > n THEN 0 ELSE IF k = 0 THEN 1 ELSE (Binom(n - 1, k - 1) * n) \div k

\* a is lexicographically before b (a proper prefix is before)
LexLt(a, b) ==
  LET m == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
      d == { i \in 1 .. m : a[i] # b[i] }
  IN IF d = {} THEN Len(a) < Len(b) ELSE LET i == Min(d) IN a[i] < b[i]
LexSorted(L) == \A i \in 1 .. Len(L) - 1 : LexLt(L[i], L[i + 1])
Distinct(L) == Cardinality(Range1(L)) = Len(L)
NonIncreasing(p) == \A i \in 1 .. Len(p) - 1 : p[i] >= p[i + 1]

\* number of r-arrangements of a multiset, given the multiplicities as a sequence
RECURSIVE Variations(_, _)
Variations(ms, r) ==
  IF ms = <<>> THEN (IF r = 0 THEN 1 ELSE 0)
  ELSE LET top == IF Head(ms) < r THEN Head(ms) ELSE r
       IN FoldLeft(LAMBDA acc, k : acc + Binom(r, k - 1) * Variations(Tail(ms), (r - k) + 1), 0, [k \in 1 .. top + 1 |-> k])
Mults(s) == LET xs == SetToSeq(Range1(s)) IN [i \in 1 .. Len(xs) |-> Mult(s, xs[i])]
NVariations(s, r) == IF r < 0 \/ r > Len(s) THEN 0 ELSE Variations(Mults(s), r)
NAllVariations(s) == FoldLeft(LAMBDA acc, r : acc + NVariations(s, r - 1), 0, [r \in 1 .. Len(s) + 1 |-> r])

SubMultiset(v, s) == \A x \in Range1(v) : Mult(v, x) <= Mult(s, x)
IsArrangement(v, s) == Len(v) = Len(s) /\ SubMultiset(v, s)

\* Algorithm L, one step as a whole: the next arrangement, <<>> when there is none
AlgL(a) ==
  LET n == Len(a)
      js == { j \in 1 .. n - 1 : a[j] < a[j + 1] }
  IN IF js = {} THEN <<>>
     ELSE LET j == Max(js)
              l == Max({ i \in j + 1 .. n : a[j] < a[i] })
              b == [a EXCEPT ![j] = a[l], ![l] = a[j]]
          IN SubSeq(b, 1, j) \o Reverse(SubSeq(b, j + 1, n))
\* the next r-variation (steps R1 to R6), state is the whole array
AlgR(a, r) ==
  LET n == Len(a)
  IN IF \E i \in r + 1 .. n : a[i] > a[r]
     THEN LET j == Min({ i \in r + 1 .. n : a[i] > a[r] }) IN [a EXCEPT ![r] = a[j], ![j] = a[r]]
     ELSE AlgL(SubSeq(a, 1, r) \o Reverse(SubSeq(a, r + 1, n)))

(* partitions of n with options *)
\* parts: set of allowed parts; k: number of parts (0: any); d: distinct
\* one part size at a time.  Of the tables below, entry s + 1 is for the sum s;
\* with distinct parts every entry is made of old ones, otherwise of new ones
CountAny(n, ps, d) ==
  FoldLeft(LAMBDA t, p : TLCEval(IF d THEN [i \in 1 .. n + 1 |-> t[i] + (IF i > p THEN t[i - p] ELSE 0)]
                                 ELSE FoldLeft(LAMBDA u, i : Append(u, t[i] + (IF i > p THEN u[i - p] ELSE 0)), <<>>, [i \in 1 .. n + 1 |-> i])),
           [i \in 1 .. n + 1 |-> IF i = 1 THEN 1 ELSE 0], ps)[n + 1]
\* exactly k parts: row j + 1 is for j parts
CountK(n, ps, k, d) ==
  FoldLeft(LAMBDA t, p : TLCEval(
             FoldLeft(LAMBDA u, j : Append(u, LET below == IF j = 1 THEN <<>> ELSE IF d THEN t[j - 1] ELSE u[j - 1]
                                              IN TLCEval([i \in 1 .. n + 1 |-> t[j][i] + (IF j > 1 /\ i > p THEN below[i - p] ELSE 0)])),
                      <<>>, [j \in 1 .. k + 1 |-> j])),
           [j \in 1 .. k + 1 |-> [i \in 1 .. n + 1 |-> IF i = 1 /\ j = 1 THEN 1 ELSE 0]], ps)[k + 1][n + 1]
NPartitions(n, parts, k, d) ==
  LET ps == SetToSortSeq({ p \in parts : p <= n }, LAMBDA x, y : x > y)
  IN IF k = 0 THEN CountAny(n, ps, d) ELSE IF k > n THEN 0 ELSE CountK(n, ps, k, d)

ProdSeq(s) == FoldLeft(LAMBDA acc, x : acc * x, 1, s)

GenVerdict(e) ==
  CASE e.op \in {"phillips", "knuth_algorithm_l"} ->
       Ret(e.out, LAMBDA v : LET L == v[1] s == e.in.s IN FirstBad(<<
         Cl("argument-changed", v[2] = s),
         Cl("not-an-arrangement", \A i \in DOMAIN L : IsArrangement(L[i], s)),
         Cl("order", LexSorted(L)),
         Cl("count", Len(L) = NVariations(s, Len(s)))>>))
    [] e.op = "knuth_algorithm_l_variations" ->
       Ret(e.out, LAMBDA v : LET L == v[1] s == e.in.s IN FirstBad(<<
         Cl("argument-changed", v[2] = s),
         Cl("not-a-variation", \A i \in DOMAIN L : SubMultiset(L[i], s)),
         Cl("order", LexSorted(L)),
         Cl("count", Len(L) = NAllVariations(s))>>))
    [] e.op = "knuth_algorithm_l_rvariations" ->
       Ret(e.out, LAMBDA v : LET L == v[1] s == e.in.s IN FirstBad(<<
         Cl("argument-changed", v[2] = s),
         Cl("not-an-r-variation", \A i \in DOMAIN L : Len(L[i]) = e.in.r /\ SubMultiset(L[i], s)),
         Cl("order", LexSorted(L)),
         Cl("count", Len(L) = NVariations(s, e.in.r))>>))
    [] e.op = "combinations" ->
       Ret(e.out, LAMBDA L : FirstBad(<<
         Cl("not-a-combination", \A i \in DOMAIN L : Len(L[i]) = e.in.t /\ Cardinality(Range1(L[i])) = e.in.t
                                                     /\ Range1(L[i]) \subseteq 0 .. e.in.n - 1),
         Cl("repetition", Cardinality({ Range1(L[i]) : i \in DOMAIN L }) = Len(L)),
         Cl("count", Len(L) = Binom(e.in.n, e.in.t))>>))
    [] e.op = "integer_partitions" ->
       Ret(e.out, LAMBDA v :
         LET L == v[1] n == e.in.n k == e.in.k d == e.in.d = 1
             parts == IF e.in.p = <<0>> THEN 1 .. n ELSE Range1(e.in.p)
         IN FirstBad(<<
         Cl("argument-changed", v[2] = e.in.p),
         Cl("not-a-partition", \A i \in DOMAIN L : /\ Range1(L[i]) \subseteq parts
                                                   /\ FoldLeft(LAMBDA a, b : a + b, 0, L[i]) = n
                                                   /\ NonIncreasing(L[i])),
         Cl("number-of-parts", k = 0 \/ \A i \in DOMAIN L : Len(L[i]) = k),
         Cl("parts-repeat", d => \A i \in DOMAIN L : Cardinality(Range1(L[i])) = Len(L[i])),
         Cl("repetition", Distinct(L)),
         Cl("count", Len(L) = NPartitions(n, parts, k, d))>>))
    [] e.op = "n_tuples" ->
       Ret(e.out, LAMBDA v : LET L == v[1] m == e.in.m IN FirstBad(<<
         Cl("argument-changed", v[2] = 1),
         Cl("not-a-tuple", \A i \in DOMAIN L : Len(L[i]) = Len(m) /\ \A j \in DOMAIN m : L[i][j] \in 0 .. m[j] - 1),
         Cl("repetition", Distinct(L)),
         Cl("count", Len(L) = ProdSeq(m))>>))
=============================================================================
