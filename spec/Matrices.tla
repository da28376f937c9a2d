-------------------------------- MODULE Matrices --------------------------------
(* A04: integer matrices.  A matrix is a non-empty sequence of rows of equal
   non-zero length, entries limb integers.  Results travel with the operands as
   they are after the call, which must be what they were before it.             *)
EXTENDS MatArith, Judge
Pure(out, ops, want) == Ret(out, LAMBDA v : IF v[1] # want THEN "value" ELSE Cl("operands-changed", Tail(v) = ops))
\* aligned text of small entries
RECURSIVE Spaces(_)
Spaces(n) == IF n <= 0 THEN "" ELSE " " \o Spaces(n - 1)
RECURSIVE RowText(_, _, _)
RowText(r, j, w) == LET t == ToString(r[j]) IN (IF j = 1 THEN "" ELSE " ") \o Spaces(w - Len(t)) \o t \o (IF j = Len(r) THEN "" ELSE RowText(r, j + 1, w))
RECURSIVE MatText(_, _, _)
MatText(M, i, w) == "[" \o RowText(M[i], 1, w) \o "]" \o (IF i = Len(M) THEN "" ELSE "\n" \o MatText(M, i + 1, w))
Width(M) == CHOOSE w \in { Len(ToString(M[i][j])) : i \in 1 .. Len(M), j \in 1 .. Len(M[1]) } :
              \A i \in 1 .. Len(M), j \in 1 .. Len(M[1]) : Len(ToString(M[i][j])) <= w
Zero(m, n) == [i \in 1 .. m |-> [j \in 1 .. n |-> Z0]]
Put(M, i, j, x) == [M EXCEPT ![i][j] = x]
MatricesVerdict(e) ==
  LET a == e.in f == a.f g == a.g IN
  CASE e.op = "construct" -> Is(e.out, f)
    [] e.op = "zero" -> Is(e.out, Zero(a.m, a.n))
    [] e.op \in {"add", "radd"} -> IF SameShape(f, g) THEN Pure(e.out, <<f, g>>, MAdd(f, g)) ELSE Raises(e.out, "ValueError")
    [] e.op \in {"sub", "rsub"} -> IF SameShape(f, g) THEN Pure(e.out, <<f, g>>, MSub(f, g)) ELSE Raises(e.out, "ValueError")
    [] e.op \in {"mul", "rmul"} -> IF NCols(f) = NRows(g) THEN Pure(e.out, <<f, g>>, MMul(f, g)) ELSE Raises(e.out, "ValueError")
    [] e.op = "neg" -> Pure(e.out, <<f>>, MNeg(f))
    [] e.op \in {"mul_scalar", "scalar_mul"} -> Pure(e.out, <<f>>, MScale(f, a.s))
    [] e.op \in {"add_scalar", "scalar_add", "sub_scalar", "scalar_sub"} -> Raises(e.out, "ValueError")
    [] e.op = "det" -> IF NRows(f) = NCols(f) THEN Pure(e.out, <<f>>, Det(f)) ELSE Raises(e.out, "ValueError")
    [] e.op = "delete_row" -> Pure(e.out, <<f>>, DropRow(f, a.i))
    [] e.op = "delete_col" -> Pure(e.out, <<f>>, DropCol(f, a.i))
    [] e.op = "minor" -> Pure(e.out, <<f>>, DropCol(DropRow(f, a.i), a.j))
    [] e.op = "get" -> Pure(e.out, <<f>>, f[a.i][a.j])
    [] e.op = "row" -> Pure(e.out, <<f>>, f[a.i])
    [] e.op = "set" ->          \* one entry changes, in this matrix only
         Is(e.out, <<Put(f, a.i, a.j, a.s), f, f>>)
    [] e.op = "set_row" -> Is(e.out, [f EXCEPT ![a.i] = a.r])
    [] e.op = "set_zero" -> Is(e.out, Put(Zero(a.m, a.n), a.i, a.j, a.s))
    [] e.op = "set_after" ->    \* results do not share rows with their operands
         Is(e.out, <<f, g>>)
    [] e.op = "show" -> Is(e.out, MatText(a.small, 1, Width(a.small)))
    [] e.op = "compose" ->      \* A B - B A + s A, for square A, B
         Pure(e.out, <<f, g>>, MAdd(MSub(MMul(f, g), MMul(g, f)), MScale(f, a.s)))
    [] e.op = "det_product" -> Pure(e.out, <<f, g>>, ZMul(Det(f), Det(g)))
=============================================================================
