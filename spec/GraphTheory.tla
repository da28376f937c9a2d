---------------------------- MODULE GraphTheory ----------------------------
(* Definitions about finite graphs used by all graph specifications.  A graph
   arrives as a record with fields n (vertices are 1..n) and edges, a sequence
   of <<u, v, w>> with u < v (undirected, one entry per edge); the path
   specifications also use arcs (directed).                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, FiniteSetsExt, SequencesExt, Functions

INF == 999999999

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
SumOver(f, S) == FoldSet(LAMBDA x, acc : f[x] + acc, 0, S)

V(g) == 1 .. g.n
EdgePairs(g) == TLCEval({ {g.edges[i][1], g.edges[i][2]} : i \in 1 .. Len(g.edges) })
\* weight function on unordered pairs
EdgeWeight(g) == TLCEval([p \in EdgePairs(g) |->
                    LET i == CHOOSE j \in 1 .. Len(g.edges) : {g.edges[j][1], g.edges[j][2]} = p
                    IN g.edges[i][3]])
\* neighbourhoods
Nbs(g) == TLCEval([u \in V(g) |->
            {g.edges[i][2] : i \in {j \in 1 .. Len(g.edges) : g.edges[j][1] = u}}
            \cup {g.edges[i][1] : i \in {j \in 1 .. Len(g.edges) : g.edges[j][2] = u}}])

(* reachability *)
RECURSIVE Closure(_, _, _)
Closure(nb, seen, front) ==
  IF front = {} THEN seen
  ELSE LET new == TLCEval((UNION {nb[u] : u \in front}) \ seen)
       IN Closure(nb, seen \cup new, new)
Reach(nb, s) == Closure(nb, {s}, {s})
Connected(g) == g.n = 0 \/ Reach(Nbs(g), 1) = V(g)
Components(g) == LET nb == Nbs(g) IN { Reach(nb, u) : u \in V(g) }

(* trees given as a set of pairs over a set of vertices *)
NbsOf(vs, es) == TLCEval([u \in vs |-> UNION { e \ {u} : e \in {x \in es : u \in x} }])
IsTreeOn(vs, es) ==
  /\ vs # {}
  /\ \A e \in es : e \subseteq vs
  /\ Cardinality(es) = Cardinality(vs) - 1
  /\ LET nb == NbsOf(vs, es) IN \A s \in {CHOOSE x \in vs : TRUE} : Reach(nb, s) = vs
IsForestOn(vs, es) ==
  /\ \A e \in es : e \subseteq vs
  /\ LET nb == NbsOf(vs, es)
         comps == { Reach(nb, u) : u \in vs }
     IN Cardinality(es) = Cardinality(vs) - Cardinality(comps)
PairSet(s) == { {s[i][1], s[i][2]} : i \in 1 .. Len(s) }

(* minimum weight of a spanning forest: contract components along the
   cheapest crossing edge (the cut property), deterministically *)
RECURSIVE CutForest(_, _, _)
CutForest(comp, es, w) ==
  LET cross == { e \in es : \A c \in comp : Cardinality(e \cap c) < 2 }
  IN IF cross = {} THEN 0
     ELSE LET e == CHOOSE x \in cross : \A y \in cross : w[x] <= w[y]
              a == { c \in comp : c \cap e # {} }
          IN w[e] + CutForest((comp \ a) \cup {UNION a}, es, w)
MinForestWeight(g) == CutForest({{u} : u \in V(g)}, EdgePairs(g), EdgeWeight(g))

(* the declarative definition, used to check CutForest on small models *)
SpanningForests(g) == { es \in SUBSET EdgePairs(g) :
                          /\ IsForestOn(V(g), es)
                          /\ Cardinality(es) = g.n - Cardinality(Components(g)) }
TreeWeight(w, es) == SumOver(w, es)

(* cliques and independent sets *)
IsClique(nb, s) == \A u \in s : (s \ {u}) \subseteq nb[u]
IsIndep(nb, s) == \A u \in s : nb[u] \cap s = {}
Cliques(g) == LET nb == Nbs(g) IN { s \in SUBSET V(g) : IsClique(nb, s) }
MaximalCliques(g) ==
  LET nb == Nbs(g)
  IN { s \in SUBSET V(g) : s # {} /\ IsClique(nb, s) /\ \A v \in V(g) \ s : ~ (s \subseteq nb[v]) }
MaximalIndeps(g) ==
  LET nb == Nbs(g)
  IN { s \in SUBSET V(g) : s # {} /\ IsIndep(nb, s) /\ \A v \in V(g) \ s : nb[v] \cap s # {} }
SetOf(s) == { s[i] : i \in 1 .. Len(s) }
NoDup(s) == Cardinality(SetOf(s)) = Len(s)

(* chromatic number: grow by k until a proper colouring exists (backtracking
   in vertex order, a new colour only once per level) *)
RECURSIVE CanColor(_, _, _, _, _)
CanColor(nb, n, col, u, k) ==
  IF u > n THEN TRUE
  ELSE LET used == IF u = 1 THEN 0 ELSE MaxOf({col[x] : x \in 1 .. u - 1})
       IN \E c \in 1 .. (IF used < k THEN used + 1 ELSE k) :
             /\ \A x \in nb[u] : x < u => col[x] # c
             /\ CanColor(nb, n, [col EXCEPT ![u] = c], u + 1, k)
ChromaticNumber(g) ==
  IF g.n = 0 THEN 0
  ELSE LET nb == Nbs(g)
       IN MinOf({ k \in 1 .. g.n : CanColor(nb, g.n, [u \in V(g) |-> 0], 1, k) })
=============================================================================
