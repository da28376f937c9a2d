------------------------------ MODULE Cliques ------------------------------
(* Cliques, independent sets and colourings.  Enumerators are machines that
   may emit, at each step, any maximal clique not emitted before and may stop
   only when all are emitted; optimisers must return a witness of the exact
   optimum, which is computed from the branching recurrences checked against
   the declarative definitions in CliquesMC.                                 *)
EXTENDS GraphTheory, Judge

\* exact recurrences (any vertex may be branched on)
RECURSIVE Omega(_, _)
Omega(nb, P) ==
  IF P = {} THEN 0
  ELSE LET u == CHOOSE x \in P : TRUE
           a == 1 + Omega(nb, TLCEval(P \cap nb[u]))
           rest == TLCEval(P \ {u})
       IN IF rest \subseteq nb[u] THEN a      \* u is in some maximum clique of P
          ELSE LET b == Omega(nb, rest) IN IF a > b THEN a ELSE b
RECURSIVE OmegaW(_, _, _)
OmegaW(nb, w, P) ==
  IF P = {} THEN 0
  ELSE LET u == CHOOSE x \in P : TRUE
           a == w[u] + OmegaW(nb, w, TLCEval(P \cap nb[u]))
           b == OmegaW(nb, w, TLCEval(P \ {u}))
       IN IF a > b THEN a ELSE b
\* maximal cliques containing R, using candidates P and forbidden X
RECURSIVE BK(_, _, _, _)
BK(nb, R, P, X) ==
  IF P = {} THEN (IF X = {} THEN {R} ELSE {})
  ELSE LET u == CHOOSE x \in P \cup X : \A y \in P \cup X : Cardinality(P \cap nb[x]) >= Cardinality(P \cap nb[y])
           RECURSIVE Go(_, _, _)
           Go(Q, PP, XX) ==
             IF Q = {} THEN {}
             ELSE LET q == CHOOSE x \in Q : TRUE
                  IN BK(nb, R \cup {q}, TLCEval(PP \cap nb[q]), TLCEval(XX \cap nb[q]))
                     \cup Go(Q \ {q}, PP \ {q}, XX \cup {q})
       IN Go(P \ nb[u], P, X)
AllMaximalCliques(nb, vs) == IF vs = {} THEN {} ELSE BK(nb, {}, vs, {})
CoNbs(g) == LET nb == Nbs(g) IN TLCEval([u \in V(g) |-> V(g) \ (nb[u] \cup {u})])

RECURSIVE EnumRun(_, _, _)
EnumRun(ys, left, seen) ==
  IF ys = <<>> THEN (IF left = {} THEN "ok" ELSE "missing")
  ELSE LET s == SetOf(Head(ys))
       IN CASE ~ NoDup(Head(ys)) -> "repeated-vertex"
            [] s \in seen -> "repeated"
            [] s \notin left -> "not-maximal-clique"
            [] OTHER -> EnumRun(Tail(ys), left \ {s}, seen \cup {s})

CliqueVerdict(nb, vs, r, best) ==     \* r = <<size, vertices>>
  LET s == SetOf(r[2])
  IN CASE ~ NoDup(r[2]) -> "repeated-vertex"
       [] ~ (s \subseteq vs) -> "not-a-vertex"
       [] ~ IsClique(nb, s) -> "not-a-clique"
       [] r[1] # Cardinality(s) -> "reported-size"
       [] r[1] # best -> "not-maximum"
       [] OTHER -> "ok"
WCliqueVerdict(nb, vs, w, r, best) ==
  LET s == SetOf(r[2])
  IN CASE ~ NoDup(r[2]) -> "repeated-vertex"
       [] ~ (s \subseteq vs) -> "not-a-vertex"
       [] ~ IsClique(nb, s) -> "not-a-clique"
       [] r[1] # SumOver(w, s) -> "reported-weight"
       [] r[1] # best -> "not-maximum"
       [] OTHER -> "ok"
IndepVerdict(nb, vs, r, exact, best, maximal) ==
  LET s == SetOf(r[2])
  IN CASE ~ NoDup(r[2]) -> "repeated-vertex"
       [] ~ (s \subseteq vs) -> "not-a-vertex"
       [] ~ IsIndep(nb, s) -> "not-independent"
       [] r[1] # Cardinality(s) -> "reported-size"
       [] exact /\ r[1] # best -> "not-maximum"
       [] maximal /\ ~ \A v \in vs \ s : nb[v] \cap s # {} -> "not-maximal"
       [] OTHER -> "ok"

(* colourings: r = <<k, col>> with col a colour for every vertex, or
   r = <<k, classes>> *)
MapColor(g, cls) == [v \in V(g) |-> CHOOSE i \in 1 .. Len(cls) : v \in SetOf(cls[i])]
ProperVerdict(g, k, col) ==
  LET nb == Nbs(g)
  IN CASE \E u \in V(g) : \E v \in nb[u] : col[u] = col[v] -> "adjacent-same-color"
       [] Cardinality({ col[v] : v \in V(g) }) # k -> "number-of-colors"
       [] OTHER -> "ok"
ColorVerdict(g, isMap, r) ==
  IF isMap THEN IF Len(r[2]) # g.n THEN "not-covering" ELSE ProperVerdict(g, r[1], r[2])
  ELSE LET cls == r[2]
           all == UNION { SetOf(cls[i]) : i \in 1 .. Len(cls) }
           tot == SumSeq([i \in 1 .. Len(cls) |-> Len(cls[i])])
       IN CASE all # V(g) -> "not-covering"
            [] tot # g.n -> "colored-twice"
            [] r[1] # Len(cls) -> "number-of-classes"
            [] OTHER -> ProperVerdict(g, r[1], MapColor(g, cls))

\* first-fit machine over a vertex order: number of colours
RECURSIVE FirstFit(_, _, _)
FirstFit(nb, order, col) ==
  IF order = <<>> THEN col
  ELSE LET v == Head(order)
           used == { col[u] : u \in {x \in nb[v] : col[x] > 0} }
           c == MinOf((1 .. Cardinality(used) + 1) \ used)
       IN FirstFit(nb, Tail(order), TLCEval([col EXCEPT ![v] = c]))
FirstFitColors(g, order) ==
  LET col == FirstFit(Nbs(g), order, [v \in V(g) |-> 0]) IN MaxOf({ col[v] : v \in V(g) })

Bipartite(g) == CanColor(Nbs(g), g.n, [u \in V(g) |-> 0], 1, 2)

CliquesVerdict(e) ==
  LET g == e.in
      nb == Nbs(g)
      cnb == CoNbs(g)
      isMap == g.map = 1
  IN CASE e.op \in {"bron_kerbosch", "bron_kerbosch_binary", "tomita", "maximal_cliques"} ->
            Ret(e.out, LAMBDA r : EnumRun(r, AllMaximalCliques(nb, V(g)), {}))
       [] e.op = "maximal_independent_sets" ->
            Ret(e.out, LAMBDA r : EnumRun(r, AllMaximalCliques(cnb, V(g)), {}))
       [] e.op \in {"pardalos", "pardalos_binary", "ostergard", "ostergard_binary", "maximum_clique"} ->
            Ret(e.out, LAMBDA r : CliqueVerdict(nb, V(g), r, Omega(nb, V(g))))
       [] e.op = "maximum_weight_clique" ->
            Ret(e.out, LAMBDA r : WCliqueVerdict(nb, V(g), g.vw, r, OmegaW(nb, g.vw, V(g))))
       [] e.op \in {"is_branch_and_bound", "maximum_independent_set"} ->
            Ret(e.out, LAMBDA r : IndepVerdict(nb, V(g), r, TRUE, Omega(cnb, V(g)), TRUE))
       [] e.op = "is_greedy" -> Ret(e.out, LAMBDA r : IndepVerdict(nb, V(g), r, FALSE, 0, TRUE))
       [] e.op = "is_culberson" -> Ret(e.out, LAMBDA r : IndepVerdict(nb, V(g), r, FALSE, 0, g.n = 0))
       [] e.op \in {"korman", "exact_coloring", "co_branch_and_bound"} ->
            Ret(e.out, LAMBDA r : LET v == ColorVerdict(g, isMap, r)
                                  IN IF v # "ok" THEN v ELSE IF r[1] # ChromaticNumber(g) THEN "not-optimal" ELSE "ok")
       [] e.op = "maxis" ->
            Ret(e.out, LAMBDA r : LET v == ColorVerdict(g, isMap, r)
                                  IN IF v # "ok" THEN v
                                     ELSE IF g.limit >= g.n /\ r[1] # ChromaticNumber(g) THEN "not-optimal" ELSE "ok")
       [] e.op = "dsatur" ->
            Ret(e.out, LAMBDA r : LET v == ColorVerdict(g, isMap, r)
                                  IN IF v # "ok" THEN v
                                     ELSE IF r[1] > 2 /\ Bipartite(g) THEN "not-two-colors" ELSE "ok")
       [] e.op = "greedy_sequential" ->
            Ret(e.out, LAMBDA r : LET v == ColorVerdict(g, isMap, r)
                                  IN IF v # "ok" THEN v
                                     ELSE IF g.seq = <<>> THEN "ok"
                                     ELSE LET k == FirstFitColors(g, g.seq)
                                          IN IF g.passes = 1 /\ r[1] # k THEN "not-first-fit"
                                             ELSE IF r[1] > k THEN "pass-worsened" ELSE "ok")
       [] OTHER -> "unknown-op"
=============================================================================
