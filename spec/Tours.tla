------------------------------- MODULE Tours -------------------------------
(* C07: closed tours over points 1 .. n with a symmetric integer distance
   matrix D (for point sets: the Euclidean distances times a scale, rounded;
   tol is the slack this rounding needs, 0 for integer matrices).            *)
EXTENDS Judge, SequencesExt, FiniteSetsExt
Perm(p, n) == Len(p) = n /\ { p[i] : i \in DOMAIN p } = 1 .. n
Nxt(p, i) == IF i = Len(p) THEN p[1] ELSE p[i + 1]
Length(p, D) == FoldLeft(LAMBDA acc, i : acc + D[p[i]][Nxt(p, i)], 0, [i \in DOMAIN p |-> i])
AbsI(x) == IF x < 0 THEN -x ELSE x

\* Held-Karp by layers: g[j][S] is the least weight of a path from j through S to 1
SubsetsOfSize(n, k) == kSubset(k, 2 .. n)
TourOpt(n, D) ==
  LET base == TLCEval([j \in 2 .. n |-> [S \in {{}} |-> D[j][1]]])
      layer(g, k) == TLCEval([j \in 2 .. n |-> [S \in { T \in SubsetsOfSize(n, k) : j \notin T } |->
                          Min({ D[j][w] + g[w][S \ {w}] : w \in S })]])
      last == FoldLeft(LAMBDA g, k : layer(g, k), base, [k \in 1 .. n - 2 |-> k])
  IN Min({ D[1][j] + last[j][(2 .. n) \ {j}] : j \in 2 .. n })

Gain(p, D, i, j) ==     \* replace (p_i,p_i+1),(p_j,p_j+1) by (p_i,p_j),(p_i+1,p_j+1)
  (D[p[i]][Nxt(p, i)] + D[p[j]][Nxt(p, j)]) - (D[p[i]][p[j]] + D[Nxt(p, i)][Nxt(p, j)])
LocallyOptimal(p, D, tol) == \A i \in DOMAIN p : \A j \in i + 1 .. Len(p) : Gain(p, D, i, j) <= tol
Rev(p, a, b) == [i \in DOMAIN p |-> IF i < a \/ i > b THEN p[i] ELSE p[(a + b) - i]]

TourClauses(v, a) ==   \* v = <<cost, path>>
  FirstBad(<<Cl("not-a-tour", Perm(v[2], a.n)),
             Cl("cost-of-tour", Perm(v[2], a.n) => AbsI(v[1] - Length(v[2], a.D)) <= a.tol)>>)
Descent(v, a) == FirstBad(<<TourClauses(v, a), IF LocallyOptimal(v[2], a.D, IF a.tol = 0 THEN 0 ELSE 3) THEN "ok" ELSE "improvable">>)

TourVerdict(e) ==
  LET a == e.in IN
  CASE e.op \in {"depth_first", "branch_and_bound"} ->
       Ret(e.out, LAMBDA v : FirstBad(<<TourClauses(v, a), Cl("not-optimal", AbsI(v[1] - TourOpt(a.n, a.D)) <= a.tol)>>))
    [] e.op \in {"farthest_insertion", "simulated_annealing_two_opt"} -> Ret(e.out, LAMBDA v : TourClauses(v, a))
    [] e.op = "farthest_insertion_edges" ->
       Ret(e.out, LAMBDA E :
         LET succ(x) == { y \in 1 .. a.n : \E i \in DOMAIN E : E[i] = <<x, y>> }
         IN IF Len(E) # a.n \/ \E x \in 1 .. a.n : Cardinality(succ(x)) # 1 THEN "not-a-successor-map"
            ELSE LET go == FoldLeft(LAMBDA p, i : Append(p, CHOOSE y \in succ(p[Len(p)]) : TRUE), <<1>>, [i \in 1 .. a.n - 1 |-> i])
                 IN Cl("not-a-cycle", Perm(go, a.n) /\ 1 \in succ(go[a.n])))
    [] e.op \in {"steepest_ascent_two_opt", "two_opt"} -> Ret(e.out, LAMBDA v : Descent(v, a))
    [] e.op = "random_two_opt" ->
       Ret(e.out, LAMBDA v : FirstBad(<<Cl("argument-changed", v[2] = a.p),
          Cl("not-a-two-opt-move", \E i \in 1 .. a.n : \E j \in i + 2 .. a.n : <<i, j>> # <<1, a.n>> /\ v[1] = Rev(a.p, i, j))>>))
    [] e.op = "matrix" ->
       Ret(e.out, LAMBDA m : Cl("distances", Len(m) = a.n /\ \A i, j \in 1 .. a.n : Len(m[i]) = a.n /\
                                            (IF i = j THEN m[i][j] = -1 ELSE AbsI(m[i][j] - a.D[i][j]) <= 1)))
    [] e.op = "g_cost" -> Ret(e.out, LAMBDA c : Cl("cost", AbsI(c - Length(a.p, a.D)) <= a.tol))
    [] e.op = "g_two_opt" ->
       Ret(e.out, LAMBDA v : FirstBad(<<TourClauses(v, a), Cl("worse", v[1] <= Length(a.p, a.D) + a.tol)>>))
    [] e.op \in {"g_select", "g_mgkrec"} ->
       Ret(e.out, LAMBDA L : FirstBad(<<Cl("number", Len(L) = a.k), FirstBad([i \in DOMAIN L |-> TourClauses(L[i], a)])>>))
    [] e.op = "g_solve" -> Ret(e.out, LAMBDA v : TourClauses(v, a))
=============================================================================
