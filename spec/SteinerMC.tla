----------------------------- MODULE SteinerMC -----------------------------
(* The distance network machine: a minimum spanning tree of the shortest
   distances between the terminals, every edge of it replaced by any shortest
   path, any minimum spanning tree of the union, then leaves that are not
   terminals dropped in any order.  Every run on every small connected graph
   ends in a tree the verdict accepts (the factor 2(1 - 1/t) included), and
   the optimum of the verdict is the least weight of a tree of edges that
   contains the terminals.                                                   *)
EXTENDS Steiner
CONSTANTS Size, Weights
VARIABLES g, T, stage, links, es
vars == <<g, T, stage, links, es>>
Pairs == { <<u, v>> \in (1 .. Size) \X (1 .. Size) : u < v }
Graphs == { h \in { [n |-> Size, edges |-> SetToSeq({ <<p[1], p[2], a[p]>> : p \in {q \in Pairs : a[q] >= 0} })] : a \in [Pairs -> Weights \cup {-1}] } : Connected(h) }
Init == /\ g \in Graphs
        /\ T \in { S \in SUBSET (1 .. Size) : 1 \in S /\ Cardinality(S) >= 2 }
        /\ stage = "closure" /\ links = {} /\ es = {}
W == EdgeWeight(g)
\* simple paths from u to v as edge sets
RECURSIVE PathsTo(_, _, _, _)
PathsTo(nb, u, v, free) ==
  IF u = v THEN {{}}
  ELSE UNION { { {{u, x}} \cup p : p \in PathsTo(nb, x, v, free \ {x}) } : x \in nb[u] \cap free }
Ways(u, v) == PathsTo(Nbs(g), u, v, V(g) \ {u})
Dist(u, v) == MinOf({ TreeWeight(W, p) : p \in Ways(u, v) })
Shortest(u, v) == { p \in Ways(u, v) : TreeWeight(W, p) = Dist(u, v) }
TPairs == { q \in SUBSET T : Cardinality(q) = 2 }
End(q) == MinOf(q)
Other(q) == MaxOf(q)
Closed == TLCEval([q \in TPairs |-> Dist(End(q), Other(q))])
MinTrees(vs, ps, w) ==
  LET trees == { x \in SUBSET ps : IsTreeOn(vs, x) }
  IN { x \in trees : \A y \in trees : TreeWeight(w, x) <= TreeWeight(w, y) }
Close == /\ stage = "closure" /\ \E x \in MinTrees(T, TPairs, Closed) : links' = x
         /\ stage' = "expand" /\ UNCHANGED <<g, T, es>>
Expand == /\ stage = "expand" /\ links # {}
          /\ \E q \in links : links' = links \ {q} /\ \E p \in Shortest(End(q), Other(q)) : es' = es \cup p
          /\ UNCHANGED <<g, T, stage>>
Span == /\ stage = "expand" /\ links = {}
        /\ \E x \in MinTrees(UNION es, es, W) : es' = x
        /\ stage' = "prune" /\ UNCHANGED <<g, T, links>>
Loose == { v \in UNION es \ T : Cardinality({ x \in es : v \in x }) = 1 }
Prune == /\ stage = "prune" /\ \E v \in Loose : es' = { x \in es : v \notin x }
         /\ UNCHANGED <<g, T, stage, links>>
Next == Close \/ Expand \/ Span \/ Prune
Spec == Init /\ [][Next]_vars
List(x) == LET s == SetToSeq(x) IN [i \in 1 .. Len(s) |-> <<MinOf(s[i]), MaxOf(s[i])>>]
Verdict(x) == SteinerVerdict([in |-> [n |-> g.n, edges |-> g.edges, t |-> SetToSeq(T)], out |-> [k |-> "ret", v |-> <<TreeWeight(W, x), List(x)>>]])
Sound == stage = "prune" /\ Loose = {} => Verdict(es) = "ok"
\* the trees of edges that contain the terminals
Spanned == { x \in SUBSET EdgePairs(g) : IsTreeOn(UNION x \cup T, x) }
Optimum == stage = "closure" => OptWeight(g, T) = MinOf({ TreeWeight(W, x) : x \in Spanned })
\* nothing but such trees, free of loose ends and within the factor, is accepted
Exact == stage = "closure" =>
  { x \in SUBSET EdgePairs(g) : Verdict(x) = "ok" } =
  { x \in Spanned : /\ \A v \in UNION x \ T : Cardinality({ y \in x : v \in y }) > 1
                    /\ Cardinality(T) * TreeWeight(W, x) <= 2 * (Cardinality(T) - 1) * OptWeight(g, T) }
=============================================================================
