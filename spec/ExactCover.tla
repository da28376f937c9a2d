----------------------------- MODULE ExactCover -----------------------------
(* C05: exact covers and the puzzles derived from them.  A family is a
   sequence of sets over the target; a cover is a set of members (indices)
   whose sets are non-empty, pairwise disjoint and together the target.      *)
EXTENDS Judge, SequencesExt, FiniteSetsExt

SetOf(s) == { s[i] : i \in DOMAIN s }
\* by definition
Covers0(target, fam) ==
  { S \in SUBSET DOMAIN fam : /\ UNION { fam[i] : i \in S } = target
                              /\ \A i \in S : fam[i] # {} /\ \A j \in S \ {i} : fam[i] \cap fam[j] = {} }
\* by recursion on a fixed uncovered element: pick the member that covers it
RECURSIVE CoversR(_, _, _)
CoversR(unc, fam, live) ==
  IF unc = {} THEN { {} }
  ELSE LET c == CHOOSE x \in unc : TRUE
       IN UNION { { S \cup {i} : S \in CoversR(unc \ fam[i], fam, { j \in live : fam[j] \cap fam[i] = {} }) }
                  : i \in { j \in live : c \in fam[j] } }
Covers(target, fam) == CoversR(target, fam, { i \in DOMAIN fam : fam[i] # {} /\ fam[i] \subseteq target })

\* the answer as a bag: each cover (a set of sets) as often as there are index choices for it
CoverClauses(L, target, fam) ==
  LET cs == Covers(target, fam)
      want == { { fam[i] : i \in S } : S \in cs }
      got(i) == { SetOf(L[i][j]) : j \in DOMAIN L[i] }
  IN FirstBad(<<
     Cl("not-a-cover", \A i \in DOMAIN L : got(i) \in want /\ Len(L[i]) = Cardinality(got(i))),
     Cl("number", Len(L) = Cardinality(cs)),
     Cl("repeated-or-missing", \A w \in want : Cardinality({ i \in DOMAIN L : got(i) = w }) = Cardinality({ S \in cs : { fam[i] : i \in S } = w }))>>)

Fam(a) == [i \in DOMAIN a.sets |-> SetOf(a.sets[i])]
BinTarget(f) == LET u == UNION SetOf(f) IN IF u = {} THEN {} ELSE 1 .. Max(u)

(* puzzles *)
\* Langford sequences up to reversal: positions of the first copy of 1 .. n in 2n places
RECURSIVE Langford(_, _)
Langford(k, free) ==
  IF k = 0 THEN 1
  ELSE FoldLeft(LAMBDA acc, i : acc + Langford(k - 1, free \ {i, (i + k) + 1}), 0,
                SetToSeq({ i \in free : (i + k) + 1 \in free }))
LangfordPairs(n) == Langford(n, 1 .. 2 * n) \div 2
RECURSIVE DomTilings(_, _)
DomTilings(n, unc) ==
  IF unc = {} THEN 1
  ELSE LET c == Min(unc)
           opts == (IF (c + 1) \in unc /\ (c + 1) % n # 0 THEN {c + 1} ELSE {}) \cup (IF (c + n) \in unc THEN {c + n} ELSE {})
       IN FoldLeft(LAMBDA acc, d : acc + DomTilings(n, unc \ {c, d}), 0, SetToSeq(opts))
\* Latin squares row by row: partial squares as sequences of permutations
RECURSIVE LatinExt(_, _, _)
LatinExt(n, rows, k) ==
  IF k = 0 THEN 1
  ELSE FoldLeft(LAMBDA acc, p : acc + LatinExt(n, Append(rows, p), k - 1), 0,
         SetToSeq({ p \in [1 .. n -> 1 .. n] : /\ Cardinality(SetOf(p)) = n
                                               /\ \A r \in DOMAIN rows : \A c \in 1 .. n : rows[r][c] # p[c] }))
Latin(n) == LatinExt(n, <<>>, n)

\* Sudoku: units are rows, columns and boxes of a 9 x 9 grid given as 81 digits
Units == { { r * 9 + c : c \in 1 .. 9 } : r \in 0 .. 8 } \cup { { r * 9 + c : r \in 0 .. 8 } : c \in 1 .. 9 }
         \cup { { ((3 * R + r) * 9) + (3 * C + c) + 1 : r \in 0 .. 2, c \in 0 .. 2 } : R \in 0 .. 2, C \in 0 .. 2 }
SudokuOk(g, s) == /\ Len(s) = 81 /\ \A i \in 1 .. 81 : s[i] \in 1 .. 9 /\ (g[i] # 0 => s[i] = g[i])
                  /\ \A u \in Units : { s[i] : i \in u } = 1 .. 9

ECVerdict(e) ==
  LET a == e.in IN
  CASE e.op \in {"algorithmx", "algorithm_dlx"} ->
        Ret(e.out, LAMBDA v : IF v[2] # a.sets THEN "argument-changed" ELSE CoverClauses(v[1], 1 .. a.n, Fam(a)))
    [] e.op = "binary" ->      \* count, solutions, count again, solutions of a second pass
        LET f == Fam(a) t == BinTarget(f) IN
        Ret(e.out, LAMBDA v : FirstBad(<<
          Cl("number_of_solutions", v[1] = Cardinality(Covers(t, f))),
          CoverClauses(v[2], t, f),
          Cl("number_of_solutions-again", v[3] = v[1]),
          Cl("solutions-again", Len(v[4]) = Len(v[2]) /\ { SetOf([j \in DOMAIN v[4][i] |-> SetOf(v[4][i][j])]) : i \in DOMAIN v[4] }
                                                          = { SetOf([j \in DOMAIN v[2][i] |-> SetOf(v[2][i][j])]) : i \in DOMAIN v[2] })>>))
    [] e.op = "langford_pairings" -> Is(e.out, LangfordPairs(a.n))
    [] e.op = "domino_tilings" -> Is(e.out, DomTilings(a.n, 0 .. (a.n * a.n) - 1))
    [] e.op = "latin_square_ints" -> Is(e.out, Latin(a.n))
    [] e.op = "sudoku" -> IF a.feasible THEN Holds(e.out, "not-a-completion", LAMBDA v : SudokuOk(a.g, v))
                          ELSE IF e.out.k = "exc" THEN "ok" ELSE "solved-unsolvable"
    [] e.op = "grid" -> Is(e.out, a.g)
=============================================================================
