------------------------------ MODULE PrimeCount ------------------------------
(* N06: prime counts and prime sums at every argument, also within sessions in
   which several of the functions are called one after the other.            *)
EXTENDS PrimeSums, Judge
Counters == {"legendre", "meissel", "lehmer", "lmo", "lmo_bit"}
One(op, n, out) ==
  CASE op \in Counters -> Is(out, PrimePi(n))
    [] op \in {"prime_sum", "prime_sum2"} ->
         Ret(out, LAMBDA v : Cl("value", Sgn(v) >= 0 /\ IsPrimeSum(Mag(v), n)))
    [] op = "prime_count" ->      \* [v, count] for all v = floor(n / i), decreasing
         Ret(out, LAMBDA t :
           LET st == SumsAll(n, 0, Top) r == Root(n)
               Want(v) == IF v <= r THEN st[1][v] ELSE IF v <= n /\ n \div (n \div v) = v THEN st[2][n \div v] ELSE PrimePi(v)
           IN FirstBad(<<
              Cl("arguments", { n \div j : j \in 1 .. r } \cup 1 .. r \subseteq { t[j][1] : j \in DOMAIN t }),
              Cl("value", \A j \in DOMAIN t : t[j][2] = Want(t[j][1]))>>))
    [] op = "pi_table" ->
         Ret(out, LAMBDA v :
           LET ps == PrimesTo(n) IN FirstBad(<<
              Cl("primes", v[1] = ps),
              Cl("length", Len(v[2]) = n + 1),
              Cl("table", v[2][1] = 0 /\ \A j \in 1 .. n : v[2][j + 1] = v[2][j] + (IF Prime(j) THEN 1 ELSE 0))>>))
    [] op = "pi_table_large" ->   \* the table at sampled indices and the number of primes
         Ret(out, LAMBDA v : FirstBad(<<
              Cl("primes", v[1] = PrimePi(n)),
              Cl("length", v[2] = n + 1),
              Cl("table", \A j \in DOMAIN v[3] : v[3][j][2] = PrimePi(v[3][j][1]))>>))
PrimeCountVerdict(e) ==
  IF e.op = "session"
  THEN Ret(e.out, LAMBDA outs : FirstBad(<<Cl("length", Len(outs) = Len(e.in.calls))>>
         \o [i \in DOMAIN outs |-> One(e.in.calls[i].op, e.in.calls[i].n, outs[i])]))
  ELSE One(e.op, e.in.n, e.out)
=============================================================================
