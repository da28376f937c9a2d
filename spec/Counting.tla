------------------------------ MODULE Counting ------------------------------
(* C03, C04: what the counting functions count.  Every number is given by a
   definition or recurrence different from the one the code uses; CountingMC
   compares them with direct enumeration of the objects on small arguments.  *)
EXTENDS Big, Judge, Bitwise
Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
RECURSIVE GcdI(_, _)
GcdI(a, b) == IF b = 0 THEN a ELSE GcdI(b, a % b)

Fact(n) == NProd([i \in 1 .. n |-> NOf(i)])
\* exact quotient of naturals
Multinomial(n, ks) == NDiv(Fact(n), NProd([i \in DOMAIN ks |-> Fact(ks[i])]))
BinomN(n, k) == IF k < 0 \/ k > n THEN <<>> ELSE NDiv(NProd([i \in 1 .. k |-> NOf((n - k) + i)]), Fact(k))
BinomBig(n, k) == Multinomial(n, <<k, n - k>>)

\* Bell numbers by the Bell triangle: rows 0 .. n, last entry of the row before starts the row
BellRow(row) == FoldLeft(LAMBDA acc, x : Append(acc, TLCEval(NAdd(acc[Len(acc)], x))), <<row[Len(row)]>>, row)
RECURSIVE BellRows(_, _)
BellRows(row, n) == IF n = 0 THEN row[1] ELSE BellRows(TLCEval(BellRow(row)), n - 1)
Bell(n) == BellRows(<<<<1>>>>, n)

\* Stirling numbers of the second kind: k! S(m,k) = sum_j (-1)^j C(k,j) (k-j)^m  (surjections)
Surjections(m, k) ==
  ZSum([j \in 1 .. k + 1 |-> LET t == NMul(BinomN(k, j - 1), NPow(NOf((k - j) + 1), m)) IN Z(IF (j - 1) % 2 = 0 THEN 1 ELSE -1, t)])
Stirling2(m, k) == NDiv(Mag(Surjections(m, k)), Fact(k))

\* partition numbers: multiply the series 1/(1-x^k) one part size at a time
PTab(n) ==
  FoldLeft(LAMBDA t, k : FoldLeft(LAMBDA u, i : IF i - k < 1 THEN u ELSE [u EXCEPT ![i] = TLCEval(NAdd(u[i], u[i - k]))], t, [i \in 1 .. n + 1 |-> i]),
           [i \in 1 .. n + 1 |-> IF i = 1 THEN <<1>> ELSE <<>>], [k \in 1 .. n |-> k])
PMax == 300
PTable == TLCEval(PTab(PMax))
PNum(n) == PTable[n + 1]

\* coefficients of (prod 1/(1-x^k))^r, r of any sign: r times multiply by 1/(1-x^k) or (1-x^k)
RPower(r, n) ==
  LET up(t, k) == FoldLeft(LAMBDA u, i : IF i - k < 1 THEN u ELSE [u EXCEPT ![i] = TLCEval(ZAdd(u[i], u[i - k]))], t, [i \in 1 .. n + 1 |-> i])
      dn(t, k) == FoldRight(LAMBDA i, u : IF i - k < 1 THEN u ELSE [u EXCEPT ![i] = TLCEval(ZSub(u[i], u[i - k]))], [i \in 1 .. n + 1 |-> i], t)
      a == IF r < 0 THEN -r ELSE r
      one(t, k) == FoldLeft(LAMBDA u, i : IF r >= 0 THEN TLCEval(up(u, k)) ELSE TLCEval(dn(u, k)), t, [i \in 1 .. a |-> i])
  IN FoldLeft(LAMBDA t, k : one(t, k), [i \in 1 .. n + 1 |-> IF i = 1 THEN <<1, 1>> ELSE <<0>>], [k \in 1 .. n |-> k])[n + 1]

\* partitions of the vector (m, n) into non-zero vectors: one vector at a time
BiTab(m, n) ==
  LET idx == [i \in 1 .. m + 1 |-> [j \in 1 .. n + 1 |-> IF i = 1 /\ j = 1 THEN <<1>> ELSE <<>>]]
      vs == [x \in 1 .. ((m + 1) * (n + 1)) - 1 |-> <<x \div (n + 1), x % (n + 1)>>]
      cells == [x \in 1 .. (m + 1) * (n + 1) |-> <<((x - 1) \div (n + 1)) + 1, ((x - 1) % (n + 1)) + 1>>]
      add(t, v) == FoldLeft(LAMBDA u, c : IF c[1] - v[1] < 1 \/ c[2] - v[2] < 1 THEN u
                                          ELSE [u EXCEPT ![c[1]][c[2]] = TLCEval(NAdd(u[c[1]][c[2]], u[c[1] - v[1]][c[2] - v[2]]))], t, cells)
  IN FoldLeft(LAMBDA t, v : TLCEval(add(t, v)), idx, vs)
Bipart(m, n) == BiTab(m, n)[m + 1][n + 1]

\* Burnside over the n rotations
Necklaces(n, k) == NDivSmall(NSum([t \in 1 .. n |-> NPow(NOf(k), GcdI(n, t))]), n)[1]
NecklacesW(n, ws) ==
  NDivSmall(NSum([t \in 1 .. n |-> LET d == n \div GcdI(n, t)
                                   IN IF \A i \in DOMAIN ws : ws[i] % d = 0
                                      THEN Multinomial(n \div d, [i \in DOMAIN ws |-> ws[i] \div d]) ELSE <<>>]), n)[1]

(* tilings by pieces anchored at their first cell in row-major order: a broken
   profile sweep.  A profile is the bit set of covered cells from the current
   cell on; D[c] are the reachable profiles, G counts completions backwards. *)
Domino == << <<<<0, 0>>, <<0, 1>>>>, <<<<0, 0>>, <<1, 0>>>> >>
Triomino == << <<<<0, 0>>, <<0, 1>>, <<1, 0>>>>, <<<<0, 0>>, <<0, 1>>, <<1, 1>>>>, <<<<0, 0>>, <<1, 0>>, <<1, 1>>>>,
               <<<<0, 0>>, <<1, 0>>, <<1, -1>>>>, <<<<0, 0>>, <<0, 1>>, <<0, 2>>>>, <<<<0, 0>>, <<1, 0>>, <<2, 0>>>> >>
TilingsWide(rows, cols, shapes) ==
  LET bits(p) == FoldLeft(LAMBDA acc, d : acc + 2 ^ (d[1] * cols + d[2]), 0, p)
      opts == TLCEval([x \in 1 .. rows * cols |->
                LET r == (x - 1) \div cols c == (x - 1) % cols
                IN { bits(shapes[i]) : i \in { i \in DOMAIN shapes : \A k \in DOMAIN shapes[i] :
                      /\ r + shapes[i][k][1] < rows /\ c + shapes[i][k][2] \in 0 .. cols - 1 } }])
      next(x, s) == IF s % 2 = 1 THEN {s \div 2} ELSE { (s + p) \div 2 : p \in { p \in opts[x] : s & p = 0 } }
      reach == FoldLeft(LAMBDA acc, x : Append(acc, TLCEval(UNION { next(x, s) : s \in acc[x] })), <<{0}>>, [x \in 1 .. rows * cols |-> x])
      back(g, x) == TLCEval([s \in reach[x] |-> NSum(LET ts == SetToSeq(next(x, s)) IN [i \in DOMAIN ts |-> g[ts[i]]])])
      g1 == FoldLeft(LAMBDA g, k : back(g, (rows * cols - k) + 1), TLCEval([s \in reach[rows * cols + 1] |-> IF s = 0 THEN <<1>> ELSE <<>>]),
                     [k \in 1 .. rows * cols |-> k])
  IN g1[0]
\* the boards are congruent, the pieces closed under transposition
Tilings(rows, cols, shapes) == IF cols <= rows THEN TilingsWide(rows, cols, shapes) ELSE TilingsWide(cols, rows, shapes)

ZN(x) == Z(1, x)
CountVerdict(e) ==
  LET a == e.in IN
  CASE e.op = "bell_number" -> IF a.n < 0 THEN Raises(e.out, "ValueError") ELSE Is(e.out, ZN(Bell(a.n)))
    [] e.op = "stirling_number2" -> Is(e.out, IF a.n > a.m THEN <<0>> ELSE ZN(Stirling2(a.m, a.n)))
    [] e.op = "binomial" -> Is(e.out, IF a.k > a.n THEN <<0>> ELSE ZN(IF a.n <= 300 THEN BinomBig(a.n, a.k) ELSE BinomN(a.n, a.k)))
    [] e.op = "multinomial" -> IF a.k = <<>> \/ Sum(a.k) > a.n THEN Raises(e.out, "ValueError") ELSE Is(e.out, ZN(Multinomial(a.n, a.k)))
    [] e.op = "bipartitions" -> Is(e.out, ZN(Bipart(a.m, a.n)))
    [] e.op = "partition_number" -> Is(e.out, ZN(PNum(a.n)))
    [] e.op = "partition_list" -> Ret(e.out, LAMBDA v : IF Len(v) # a.n + 1 THEN "length"
                                     ELSE IF \A i \in 1 .. a.n + 1 : v[i] = ZN(PNum(i - 1)) THEN "ok" ELSE "value")
    [] e.op = "rth_power_partition_number" -> Is(e.out, RPower(a.r, a.n))
    [] e.op = "necklaces" -> Ret(e.out, LAMBDA v : IF v[2] # a.w THEN "argument-changed"
                                  ELSE IF v[1] = ZN(IF a.w = <<>> THEN Necklaces(a.n, a.k) ELSE NecklacesW(a.n, a.w)) THEN "ok" ELSE "value")
    [] e.op = "tilings" ->      \* a session: calls of both counters in one process
         Ret(e.out, LAMBDA outs : FirstBad([i \in DOMAIN a.calls |->
            Is(outs[i], ZN(Tilings(a.calls[i][2], a.calls[i][3], IF a.calls[i][1] = "domino" THEN Domino ELSE Triomino)))]))
=============================================================================
