------------------------------ MODULE Derived ------------------------------
(* Objects derived from a graph (matrices, vertex orders, extreme degrees,
   subgraphs, complement) and the graph constructors.                        *)
EXTENDS GraphTheory, Judge

Deg(nb, u) == Cardinality(nb[u])
MatIs(m, rows, cols, F(_, _)) ==
  /\ Len(m) = rows
  /\ \A i \in 1 .. rows : Len(m[i]) = cols /\ \A j \in 1 .. cols : m[i][j] = F(i, j)
\* r.rank = the vertices in lexicographic label order (rows), r.m = the matrix
Adjacency(nb, rk, i, j) == IF rk[j] \in nb[rk[i]] THEN 1 ELSE 0
DegreeEntry(nb, rk, i, j) == IF i = j THEN Deg(nb, rk[i]) ELSE 0

\* the order machine: each next vertex has least degree among those left, in
\* the graph induced by those left
RECURSIVE Induced(_, _, _)
Induced(nb, order, left) ==
  IF order = <<>> THEN left = {}
  ELSE LET v == Head(order)
           d == [u \in left |-> Cardinality(nb[u] \cap left)]
       IN /\ v \in left /\ \A u \in left : d[v] <= d[u]
          /\ Induced(nb, Tail(order), left \ {v})
NonDecr(nb, order) == \A i \in 1 .. Len(order) - 1 : Deg(nb, order[i]) <= Deg(nb, order[i + 1])
IsPerm(g, order) == Len(order) = g.n /\ SetOf(order) = V(g)

\* a recorded graph: r.vs sequence of vertices, r.es sequence of <<u, v, w>>
GraphIs(r, vs, es) ==
  CASE SetOf(r.vs) # vs \/ ~ NoDup(r.vs) -> "vertices"
    [] { <<{x[1], x[2]}, x[3]>> : x \in SetOf(r.es) } # es -> "edges"
    [] Len(r.es) # Cardinality(es) -> "repeated-edge"
    [] OTHER -> "ok"
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
RECURSIVE Binom(_, _)
Binom(n, k) == IF k = 0 \/ k = n THEN 1 ELSE Binom(n - 1, k - 1) + Binom(n - 1, k)
\* neighbourhoods of a recorded graph
NbRec(r) == TLCEval([u \in SetOf(r.vs) |-> { x[2] : x \in {y \in SetOf(r.es) : y[1] = u} } \cup { x[1] : x \in {y \in SetOf(r.es) : y[2] = u} }])

Edges1(S) == { <<p, 1>> : p \in S }
DerivedVerdict(e) ==
  LET g == e.in
      nb == Nbs(g)
      degs == { Deg(nb, u) : u \in V(g) }
  IN CASE e.op = "adjacency_matrix" -> Holds(e.out, "matrix", LAMBDA r : MatIs(r.m, g.n, g.n, LAMBDA i, j : Adjacency(nb, r.rank, i, j)))
       [] e.op = "degree_matrix" -> Holds(e.out, "matrix", LAMBDA r : MatIs(r.m, g.n, g.n, LAMBDA i, j : DegreeEntry(nb, r.rank, i, j)))
       [] e.op = "laplacian_matrix" -> Holds(e.out, "matrix", LAMBDA r :
             MatIs(r.m, g.n, g.n, LAMBDA i, j : DegreeEntry(nb, r.rank, i, j) - Adjacency(nb, r.rank, i, j)))
       [] e.op = "order_degree" -> Holds(e.out, "order", LAMBDA r : IsPerm(g, r) /\ NonDecr(nb, r))
       [] e.op = "order_degree_rev" -> Holds(e.out, "order", LAMBDA r : IsPerm(g, r) /\ NonDecr(nb, Reverse(r)))
       [] e.op = "order_induced" -> Holds(e.out, "order", LAMBDA r : IsPerm(g, r) /\ Induced(nb, r, V(g)))
       [] e.op = "order_induced_rev" -> Holds(e.out, "order", LAMBDA r : IsPerm(g, r) /\ Induced(nb, Reverse(r), V(g)))
       [] e.op = "order_rev" -> Ret(e.out, LAMBDA r : IF r.order = Reverse(r.rank) THEN "ok" ELSE "order")
       [] e.op \in {"maximum_degree", "minimum_degree", "maximum_degree_vertex", "minimum_degree_vertex"} /\ g.n = 0 -> Raises(e.out, "ValueError")
       [] e.op = "maximum_degree" -> Is(e.out, MaxOf(degs))
       [] e.op = "minimum_degree" -> Is(e.out, MinOf(degs))
       [] e.op = "maximum_degree_vertex" -> Holds(e.out, "vertex", LAMBDA v : v \in V(g) /\ Deg(nb, v) = MaxOf(degs))
       [] e.op = "minimum_degree_vertex" -> Holds(e.out, "vertex", LAMBDA v : v \in V(g) /\ Deg(nb, v) = MinOf(degs))
       [] e.op = "total_degree" -> Is(e.out, FoldSet(LAMBDA u, a : a + Deg(nb, u), 0, SetOf(g.sub)))
       \* density to nine decimals, as an exact ratio compared by cross multiplication:
       \* recorded as round(density * n * (n - 1)), and whether that product was integral
       [] e.op = "density" -> Holds(e.out, "value", LAMBDA r : r[1] = 2 * Len(g.edges) /\ r[2] = 1)
       [] e.op = "induced_subgraph" ->
            Ret(e.out, LAMBDA r : GraphIs(r, SetOf(g.sub), { <<p, EdgeWeight(g)[p]>> : p \in { q \in EdgePairs(g) : q \subseteq SetOf(g.sub) } }))
       [] e.op = "complement" ->
            Ret(e.out, LAMBDA r : GraphIs(r, V(g), Edges1({ {u, v} : u, v \in V(g) } \ ({ {u} : u \in V(g) } \cup EdgePairs(g)))))
       [] OTHER -> "unknown-op"

\* constructors: e.in.n is the argument
ConstructVerdict(e) ==
  LET n == e.in.n
      Ps(S) == { q \in { {u, v} : u, v \in S } : Cardinality(q) = 2 }
  IN CASE e.op = "complete_graph" -> Ret(e.out, LAMBDA r : GraphIs(r, 0 .. n - 1, Edges1(Ps(0 .. n - 1))))
       [] e.op = "coprime_pairs_graph" ->
            Ret(e.out, LAMBDA r : GraphIs(r, 1 .. n, Edges1({ q \in Ps(1 .. n) : Gcd(MinOf(q), MaxOf(q)) = 1 })))
       [] e.op = "grid_graph" ->
            LET cells == (0 .. n - 1) \X (0 .. n - 1)
                id(c) == c[1] * n + c[2]
                right == { {id(c), id(<<c[1], c[2] + 1>>)} : c \in {x \in cells : x[2] + 1 < n} }
                down == { {id(c), id(<<c[1] + 1, c[2]>>)} : c \in {x \in cells : x[1] + 1 < n} }
            IN Ret(e.out, LAMBDA r : GraphIs(r, 0 .. (n * n) - 1, Edges1(right \cup down)))
       \* the only cubic graph on ten vertices without triangles and squares
       [] e.op = "petersen_graph" ->
            Ret(e.out, LAMBDA r : LET nb == NbRec(r) IN
              CASE Len(r.vs) # 10 \/ ~ NoDup(r.vs) \/ Len(r.es) # 15 -> "size"
                [] \E u \in SetOf(r.vs) : Cardinality(nb[u]) # 3 -> "not-cubic"
                [] \E u, v \in SetOf(r.vs) : u # v /\ Cardinality(nb[u] \cap nb[v]) # (IF v \in nb[u] THEN 0 ELSE 1) -> "not-petersen"
                [] OTHER -> "ok")
       \* vertices arrive as the (k-1)-subsets their labels spell; for k > 5 labels
       \* are opaque and only the invariants of the odd graph are checked
       [] e.op = "odd_graph" ->
            Ret(e.out, LAMBDA r :
              LET subs == { S \in SUBSET (0 .. (2 * n) - 2) : Cardinality(S) = n - 1 }
                  name(i) == SetOf(r.names[i])
                  nb == NbRec(r)
              IN CASE Len(r.vs) # Binom((2 * n) - 1, n - 1) \/ ~ NoDup(r.vs) -> "number-of-vertices"
                   [] \E u \in SetOf(r.vs) : Cardinality(nb[u]) # (IF n = 1 THEN 0 ELSE n) -> "regularity"
                   [] 2 * Len(r.es) # Len(r.vs) * (IF n = 1 THEN 0 ELSE n) -> "number-of-edges"
                   [] n <= 5 /\ { name(i) : i \in 1 .. Len(r.vs) } # subs -> "labels"
                   [] n <= 5 /\ \E x \in SetOf(r.es) : name(x[1]) \cap name(x[2]) # {} -> "adjacent-not-disjoint"
                   [] n > 3 /\ \E u \in SetOf(r.vs) : \E a, b \in nb[u] : a # b /\ (a \in nb[b] \/ Cardinality(nb[a] \cap nb[b]) # 1) -> "short-cycle"
                   [] OTHER -> "ok")
       [] e.op = "random_graph" ->
            Ret(e.out, LAMBDA r : LET vs == 0 .. n - 1 IN
              CASE SetOf(r.vs) # vs \/ ~ NoDup(r.vs) -> "vertices"
                [] ~ ({ {x[1], x[2]} : x \in SetOf(r.es) } \subseteq Ps(vs)) \/ Cardinality({ {x[1], x[2]} : x \in SetOf(r.es) }) # Len(r.es) -> "edges"
                [] \E x \in SetOf(r.es) : x[3] # 1 -> "weights"
                [] e.in.d = 100 /\ Len(r.es) # Cardinality(Ps(vs)) -> "density-one"
                [] e.in.d = 0 /\ r.es # <<>> -> "density-zero"
                \* each pair with probability d / 100: Hoeffding leaves less than 10^-40
                \* for a deviation of 300 among the 1770 pairs on 60 vertices
                [] n = 60 /\ (100 * Len(r.es) > (1770 * e.in.d) + 30000 \/ 100 * Len(r.es) < (1770 * e.in.d) - 30000) -> "density"
                [] OTHER -> "ok")
       [] e.op \in {"load_graph", "load_dimacs_graph"} ->
            Ret(e.out, LAMBDA r : LET es == SetOf(e.in.pairs) IN
              GraphIs(r, { p[1] : p \in es } \cup { p[2] : p \in es }, { <<{p[1], p[2]}, 1>> : p \in es }))
       [] OTHER -> "unknown-op"
Constructors == {"complete_graph", "coprime_pairs_graph", "grid_graph", "petersen_graph", "odd_graph", "random_graph", "load_graph", "load_dimacs_graph"}
DVerdict(e) == IF e.op \in Constructors THEN ConstructVerdict(e) ELSE DerivedVerdict(e)
=============================================================================
