------------------------------ MODULE Steiner ------------------------------
(* Steiner trees: the result must be a tree of graph edges containing every
   terminal, whose leaves are terminals, with its true weight, and within the
   factor 2(1 - 1/t) of the optimum, which is the least weight of a minimum
   spanning tree over all connected vertex sets containing the terminals.    *)
EXTENDS GraphTheory, Judge
SubG(g, S) == [n |-> g.n, edges |-> SelectSeq(g.edges, LAMBDA e : e[1] \in S /\ e[2] \in S)]
ConnectedOn(g, S) == Reach(NbsOf(S, EdgePairs(SubG(g, S))), CHOOSE x \in S : TRUE) = S
OptWeight(g, T) ==
  LET cand == { S \cup T : S \in SUBSET (V(g) \ T) }
  IN MinOf({ MinForestWeight(SubG(g, S)) : S \in { X \in cand : ConnectedOn(g, X) } })
SteinerVerdict(e) ==
  LET g == e.in
      T == SetOf(g.t)
      t == Cardinality(T)
  IN Ret(e.out, LAMBDA r :
       LET es == PairSet(r[2])
           vs == UNION es \cup T
       IN CASE Cardinality(es) # Len(r[2]) -> "duplicate-edge"
            [] ~ (es \subseteq EdgePairs(g)) -> "not-an-edge"
            [] ~ IsTreeOn(vs, es) -> "not-a-tree-containing-terminals"
            [] \E v \in vs \ T : Cardinality({ x \in es : v \in x }) < 2 -> "non-terminal-leaf"
            [] r[1] # TreeWeight(EdgeWeight(g), es) -> "reported-weight"
            [] r[1] * t > 2 * (t - 1) * OptWeight(g, T) -> "approximation-factor"
            [] OTHER -> "ok")
=============================================================================
