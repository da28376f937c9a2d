------------------------------ MODULE Degrees ------------------------------
(* Graphic sequences.  Definition: some simple graph has the sequence as its
   degrees.  The Havel-Hakimi machine (remove a largest entry d, decrement d
   largest others) and the Erdos-Gallai inequalities with even sum are checked
   against the definition in DegreesMC.                                      *)
EXTENDS GraphTheory, Judge
SortDesc(s) == SortSeq(s, LAMBDA a, b : a > b)
PairsOf(n) == { <<u, v>> \in (1 .. n) \X (1 .. n) : u < v }
DegOf(n, S) == [v \in 1 .. n |-> Cardinality({ p \in S : v \in {p[1], p[2]} })]
DegreeSeqs(n) == { SortDesc(DegOf(n, S)) : S \in SUBSET PairsOf(n) }
D0 == {<<>>}
D1 == DegreeSeqs(1)
D2 == DegreeSeqs(2)
D3 == DegreeSeqs(3)
D4 == DegreeSeqs(4)
D5 == DegreeSeqs(5)
ByDefinition(s) == LET t == SortDesc(s) IN
  CASE Len(s) = 0 -> TRUE [] Len(s) = 1 -> t \in D1 [] Len(s) = 2 -> t \in D2
    [] Len(s) = 3 -> t \in D3 [] Len(s) = 4 -> t \in D4 [] Len(s) = 5 -> t \in D5
ErdosGallai(s) ==
  LET t == SortDesc(s)
      n == Len(t)
      Min2(a, b) == IF a < b THEN a ELSE b
      Sum(a, b, F(_)) == FoldSet(LAMBDA i, acc : acc + F(i), 0, a .. b)
  IN /\ \A i \in 1 .. n : t[i] >= 0
     /\ Sum(1, n, LAMBDA i : t[i]) % 2 = 0
     /\ \A k \in 1 .. n : Sum(1, k, LAMBDA i : t[i]) <= (k * (k - 1)) + Sum(k + 1, n, LAMBDA i : Min2(k, t[i]))
Graphic(s) == IF Len(s) <= 5 THEN ByDefinition(s) ELSE ErdosGallai(s)
\* outcome value: <<answer, argument afterwards>>
DegreesVerdict(e) ==
  Ret(e.out, LAMBDA r : IF r[2] # e.in.s THEN "argument-changed"
                        ELSE IF r[1] # Graphic(e.in.s) THEN "value" ELSE "ok")
=============================================================================
