-------------------------------- MODULE Algebra --------------------------------
(* A01, A02, A03: verdicts on polynomials and power series.  Answers of methods
   come with the operands as they are afterwards, which must be unchanged.  Lists
   marked small are ordinary integers, for long products.                      *)
EXTENDS PolyArith, Judge
SConv(f, g, k) == LET lo == PMax(1, (k + 1) - Len(g)) hi == PMin(k, Len(f))
                  IN FoldLeft(LAMBDA t, i : t + f[(lo + i) - 1] * g[((k + 1) - lo) - i + 1], 0, [i \in 1 .. (hi - lo) + 1 |-> i])
RECURSIVE ITrim(_)
ITrim(f) == IF f # <<>> /\ f[Len(f)] = 0 THEN ITrim(SubSeq(f, 1, Len(f) - 1)) ELSE f
IMul(f, g) == IF f = <<>> \/ g = <<>> THEN <<>> ELSE ITrim([k \in 1 .. (Len(f) + Len(g)) - 1 |-> SConv(f, g, k)])
\* v = <<result, operands afterwards...>>
Pure(out, ops, want) == Ret(out, LAMBDA v : IF v[1] # want THEN "value" ELSE Cl("operands-changed", Tail(v) = ops))
\* raw lists: equal as polynomials (zeros at the top do not matter)
SameList(out, ops, want) == Ret(out, LAMBDA v : IF PNorm(v[1]) # want THEN "value" ELSE Cl("operands-changed", Tail(v) = ops))

Term(c, i, x) == \* c > 0 as text
  IF i = 0 THEN ToString(c)
  ELSE (IF c = 1 THEN "" ELSE ToString(c) \o "*") \o x \o (IF i = 1 THEN "" ELSE "^" \o ToString(i))
Abs(n) == IF n < 0 THEN -n ELSE n
RECURSIVE ShowFrom(_, _, _)      \* the terms below index i (1-based) of small coefficients f
ShowFrom(f, i, x) == IF i < 1 THEN "" ELSE IF f[i] = 0 THEN ShowFrom(f, i - 1, x)
                     ELSE (IF f[i] < 0 THEN " - " ELSE " + ") \o Term(Abs(f[i]), i - 1, x) \o ShowFrom(f, i - 1, x)
Text(f, x) == IF Len(f) = 1 THEN ToString(f[1])
              ELSE (IF f[Len(f)] < 0 THEN "-" ELSE "") \o Term(Abs(f[Len(f)]), Len(f) - 1, x) \o ShowFrom(f, Len(f) - 1, x)

PolyVerdict(e) ==
  LET a == e.in f == PNorm(a.f) g == PNorm(a.g) c == PNorm(<<a.s>>) IN
  CASE e.op = "construct" ->      \* the degree of the zero polynomial is a convention
         Ret(e.out, LAMBDA v : IF v[1] # f THEN "value" ELSE Cl("degree", v[3] = PLead(f) /\ (v[2] = Len(f) - 1 \/ IsPZero(f))))
    [] e.op = "add" -> Pure(e.out, <<f, g>>, PAdd(f, g))
    [] e.op = "sub" -> Pure(e.out, <<f, g>>, PSub(f, g))
    [] e.op = "mul" -> Pure(e.out, <<f, g>>, PMul(f, g))
    [] e.op = "neg" -> Pure(e.out, <<f>>, PNeg(f))
    [] e.op \in {"add_scalar", "scalar_add"} -> Pure(e.out, <<f>>, PAdd(f, c))
    [] e.op = "sub_scalar" -> Pure(e.out, <<f>>, PSub(f, c))
    [] e.op = "scalar_sub" -> Pure(e.out, <<f>>, PSub(c, f))
    [] e.op \in {"mul_scalar", "scalar_mul"} -> Pure(e.out, <<f>>, PScale(f, a.s))
    [] e.op \in {"pow", "power_binary"} -> Pure(e.out, <<f>>, PPow(f, a.k))
    [] e.op = "eval" -> Pure(e.out, <<f>>, PEval(f, a.s))
    [] e.op = "coefficient" -> Pure(e.out, <<f>>, f[a.k + 1])
    [] e.op = "equal" -> Is(e.out, <<f = g, f # g>>)
    [] e.op = "equal_scalar" -> Is(e.out, <<f = c, f # c>>)
    [] e.op = "copy" -> Pure(e.out, <<f>>, f)
    [] e.op = "compose" ->      \* a chain of operations on shared operands: (f + g)(f - g) + f f - s
         Pure(e.out, <<f, g>>, PSub(PAdd(PSub(PMul(f, f), PMul(g, g)), PMul(f, f)), c))
    \* the list functions
    [] e.op \in {"mul_classical", "mul_karatsuba"} -> SameList(e.out, <<a.f, a.g>>, PMul(f, g))
    [] e.op = "list_add" -> SameList(e.out, <<a.f, a.g>>, PAdd(f, g))
    [] e.op = "list_subtract" -> SameList(e.out, <<a.f, a.g>>, PSub(f, g))
    [] e.op = "power_jcp" -> SameList(e.out, <<a.f>>, PPow(f, a.k))
    \* division
    [] e.op = "pseudo" ->
         IF Len(f) < Len(g) THEN Pure(e.out, <<f, g>>, <<<<Z0>>, f>>)
         ELSE LET d == PseudoOf(f, g) IN Pure(e.out, <<f, g>>, <<d[2], d[3]>>)
    [] e.op = "pseudo_scalar" -> LET d == PseudoOf(f, c) IN Pure(e.out, <<f>>, <<d[2], d[3]>>)
    [] e.op = "quo_rem" -> LET d == PDiv(f, g) IN IF d[1] THEN Pure(e.out, <<f, g>>, <<d[2], d[3]>>) ELSE Raises(e.out, "ValueError")
    [] e.op = "quo_rem_scalar" -> LET d == PDiv(f, c) IN IF d[1] THEN Pure(e.out, <<f>>, <<d[2], d[3]>>) ELSE Raises(e.out, "ValueError")
    [] e.op = "content" -> Pure(e.out, <<f>>, ZNat(PContent(f)))
    [] e.op = "primitive_part" -> Pure(e.out, <<f>>, PPrim(f))
    [] e.op = "gcd" -> LET d == PGcd(f, g) IN
         Ret(e.out, LAMBDA v : IF v[1] # d /\ v[1] # PNeg(d) THEN "value" ELSE Cl("operands-changed", Tail(v) = <<f, g>>))

RECURSIVE ZerosFrom(_, _)
ZerosFrom(f, i) == i > Len(f) \/ (f[i] = Z0 /\ ZerosFrom(f, i + 1))
SeriesVerdict(e) ==
  LET a == e.in n == Len(a.f) IN
  CASE e.op \in {"ps_mult_classical", "ps_mult_karatsuba"} -> SameList(e.out, <<a.f, a.g>>, PMul(PNorm(a.f), PNorm(a.g)))
    [] e.op = "ps_invert" ->        \* the constant term is 1 or -1
         Ret(e.out, LAMBDA v : IF Len(v[1]) # n THEN "length" ELSE IF SMul(a.f, v[1], n) # SOne(n) THEN "inverse" ELSE Cl("operands-changed", Tail(v) = <<a.f>>))
    [] e.op = "ps_power" ->
         IF a.k >= 0 THEN Pure(e.out, <<a.f>>, SPow(a.f, a.k, n))
         ELSE Ret(e.out, LAMBDA v : IF Len(v[1]) # n THEN "length" ELSE IF SMul(SPow(a.f, -a.k, n), v[1], n) # SOne(n) THEN "inverse" ELSE Cl("operands-changed", Tail(v) = <<a.f>>))
    [] e.op = "eta" -> Is(e.out, EulerProduct(a.n))
    [] e.op = "delta" -> Is(e.out, SPow(EulerProduct(a.n), 24, a.n))

AlgebraVerdict(e) ==
  IF e.op = "mul_small" THEN Ret(e.out, LAMBDA v : IF ITrim(v[1]) # IMul(e.in.f, e.in.g) THEN "value" ELSE Cl("operands-changed", Len(v) = 3 /\ ITrim(v[2]) = ITrim(e.in.f) /\ ITrim(v[3]) = ITrim(e.in.g)))
  ELSE IF e.op = "show" THEN Is(e.out, Text(LET t == ITrim(e.in.f) IN IF t = <<>> THEN <<0>> ELSE t, e.in.x))
  ELSE IF e.op \in {"ps_mult_classical", "ps_mult_karatsuba", "ps_invert", "ps_power", "eta", "delta"} THEN SeriesVerdict(e)
  ELSE PolyVerdict(e)
=============================================================================
