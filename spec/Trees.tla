------------------------------- MODULE Trees -------------------------------
(* Minimum spanning trees and forests, ordered enumeration of spanning trees,
   traversal and connectivity.  The transition systems are the light-edge
   machine (TreesMC), the queue machine and the stack machine of a traversal
   (BfsRun, DfsRun: every yielded vertex must be a step of the machine) and
   the enumeration machine of the k best trees (GabowRun).                   *)
EXTENDS GraphTheory, Judge

(* ---------- minimum spanning trees ---------- *)
ForestVerdict(vs, g, r) ==     \* r = <<weight, sequence of pairs>>
  LET es == PairSet(r[2])
      ep == EdgePairs(g)
      w == EdgeWeight(g)
  IN CASE Cardinality(es) # Len(r[2]) -> "duplicate-edge"
       [] ~ (es \subseteq ep) -> "not-an-edge"
       [] ~ IsForestOn(vs, es) -> "cycle"
       [] Cardinality(es) # Cardinality(vs) - Cardinality({c \in Components(g) : c \subseteq vs}) -> "not-spanning"
       [] r[1] # TreeWeight(w, es) -> "reported-weight"
       [] OTHER -> "ok"
Sub(g, S) == [g EXCEPT !.edges = SelectSeq(g.edges, LAMBDA e : e[1] \in S /\ e[2] \in S)]

MstVerdict(g, vs, out) ==
  Ret(out, LAMBDA r :
    LET v == ForestVerdict(vs, Sub(g, vs), r)
        h == Sub(g, vs)
    IN IF v # "ok" THEN v
       ELSE IF r[1] # MinForestWeight(h) THEN "not-minimum"
       ELSE "ok")

\* predecessor form: <<weight, pred>> with pred[v] = 0 for the root and outside its component
PredVerdict(g, vs, root, out) ==
  Ret(out, LAMBDA r :
    LET p == r[2]
        es == { {v, p[v]} : v \in {x \in V(g) : p[x] # 0} }
        k == Cardinality({x \in V(g) : p[x] # 0})
    IN CASE p[root] # 0 -> "root-has-pred"
         [] \E v \in V(g) : p[v] # 0 /\ v \notin vs -> "outside-component"
         [] k # Cardinality(vs) - 1 \/ Cardinality(es) # k -> "not-spanning"
         [] ~ (es \subseteq EdgePairs(g)) -> "not-an-edge"
         [] ~ IsTreeOn(vs, es) -> "not-a-tree"
         [] r[1] # TreeWeight(EdgeWeight(g), es) -> "reported-weight"
         [] r[1] # MinForestWeight(Sub(g, vs)) -> "not-minimum"
         [] OTHER -> "ok")

(* ---------- spanning trees in order of weight ---------- *)
RECURSIVE GabowRun(_, _, _, _, _)
GabowRun(ys, all, w, seen, last) ==
  IF ys = <<>> THEN "ok"
  ELSE LET y == Head(ys)
           es == PairSet(y[2])
       IN CASE es \notin all \/ Cardinality(es) # Len(y[2]) -> "not-a-spanning-tree"
            [] es \in seen -> "repeated"
            [] y[1] # TreeWeight(w, es) -> "reported-weight"
            [] y[1] < last -> "order"
            [] OTHER -> GabowRun(Tail(ys), all, w, seen \cup {es}, y[1])
GabowVerdict(g, k, out) ==
  Ret(out, LAMBDA ys :
    LET all == TLCEval(SpanningForests(g))
        w == EdgeWeight(g)
        v == GabowRun(ys, all, w, {}, -INF)
        m == IF k = 0 \/ k > Cardinality(all) THEN Cardinality(all) ELSE k
        got == { PairSet(ys[i][2]) : i \in 1 .. Len(ys) }
    IN CASE v # "ok" -> v
         [] Len(ys) # m -> "number-of-trees"
         [] \E t \in all \ got : \E s \in got : TreeWeight(w, t) < TreeWeight(w, s) -> "lighter-tree-missing"
         [] OTHER -> "ok")

(* ---------- traversal ---------- *)
RECURSIVE Layers(_, _, _, _)
Layers(nb, d, front, k) ==
  IF front = {} THEN d
  ELSE LET new == TLCEval({ v \in UNION { nb[u] : u \in front } : d[v] = INF })
       IN Layers(nb, TLCEval([v \in DOMAIN d |-> IF v \in new THEN k + 1 ELSE d[v]]), new, k + 1)
Hops(g, s) == Layers(Nbs(g), [v \in V(g) |-> IF v = s THEN 0 ELSE INF], {s}, 0)

\* queue machine: vertices are discovered by the earliest discovered vertex that still has undiscovered neighbours
BfsVerdict(g, s, maxd, out) ==
  Ret(out, LAMBDA r :
    LET nb == Nbs(g)
        d == Hops(g, s)
        lim == IF maxd < 0 THEN INF - 1 ELSE maxd
        first(v) == MinOf({ i \in 1 .. Len(r) : r[i] \in nb[v] })
    IN CASE ~ NoDup(r) -> "visited-twice"
         [] SetOf(r) # { v \in V(g) : d[v] <= lim } -> "visited-set"
         [] r[1] # s -> "start"
         [] \E i \in 2 .. Len(r) : d[r[i - 1]] > d[r[i]] -> "depth-order"
         [] \E i \in 3 .. Len(r) : first(r[i - 1]) > first(r[i]) -> "queue-order"
         [] OTHER -> "ok")

\* stack machine: path is the current branch; the next vertex extends the
\* deepest vertex of the branch that still has an unvisited neighbour
RECURSIVE Backtrack(_, _, _, _)
Backtrack(nb, path, seen, lim) ==
  IF path = <<>> THEN path
  ELSE LET u == path[Len(path)]
       IN IF Len(path) - 1 < lim /\ nb[u] \ seen # {} THEN path
          ELSE Backtrack(nb, SubSeq(path, 1, Len(path) - 1), seen, lim)
RECURSIVE DfsRun(_, _, _, _, _)
DfsRun(nb, path, seen, ys, lim) ==
  LET p == Backtrack(nb, path, seen, lim)
  IN IF ys = <<>> THEN IF p = <<>> THEN "ok" ELSE "stopped-early"
     ELSE IF p = <<>> THEN "extra-vertex"
     ELSE LET u == p[Len(p)]
              v == Head(ys)
          IN IF v \in seen THEN "visited-twice"
             ELSE IF v \notin nb[u] THEN "not-depth-first"
             ELSE DfsRun(nb, Append(p, v), seen \cup {v}, Tail(ys), lim)
DfsVerdict(g, s, maxd, out) ==
  Ret(out, LAMBDA r : IF r = <<>> \/ r[1] # s THEN "start"
                      ELSE DfsRun(Nbs(g), <<s>>, {s}, Tail(r), IF maxd < 0 THEN INF ELSE maxd))

TreeShape(g, s, p) ==     \* p[v] = parent, 0 for the root, -1 if absent
  LET comp == Reach(Nbs(g), s)
      es == { {v, p[v]} : v \in {x \in V(g) : p[x] > 0} }
  IN CASE \E v \in V(g) : (p[v] >= 0) # (v \in comp) -> "tree-vertices"
       [] p[s] # 0 \/ \E v \in comp \ {s} : p[v] = 0 -> "root"
       [] ~ (es \subseteq EdgePairs(g)) -> "not-an-edge"
       [] ~ IsTreeOn(comp, es) -> "not-a-tree"
       [] OTHER -> "ok"
RECURSIVE Ancestors(_, _, _)
Ancestors(p, v, acc) == IF v <= 0 \/ v \in acc THEN acc ELSE Ancestors(p, p[v], acc \cup {v})

BfsTreeVerdict(g, s, out) ==
  Ret(out, LAMBDA p :
    LET d == Hops(g, s)
        v == TreeShape(g, s, p)
    IN IF v # "ok" THEN v
       ELSE IF \E x \in V(g) : p[x] > 0 /\ d[x] # d[p[x]] + 1 THEN "not-breadth-first" ELSE "ok")
DfsTreeVerdict(g, s, out) ==
  Ret(out, LAMBDA p :
    LET v == TreeShape(g, s, p)
        comp == Reach(Nbs(g), s)
    IN IF v # "ok" THEN v
       ELSE IF \E e \in EdgePairs(g) : e \subseteq comp /\ \A x, y \in e : x = y \/ (y \notin Ancestors(p, x, {}) /\ x \notin Ancestors(p, y, {}))
            THEN "not-depth-first" ELSE "ok")

TreesVerdict(e) ==
  LET g == e.in
      o == e.out
  IN CASE e.op \in {"kruskal", "cheriton_tarjan"} -> MstVerdict(g, V(g), o)
       [] e.op = "prim" -> MstVerdict(g, Reach(Nbs(g), g.s), o)
       [] e.op = "prim_default" -> MstVerdict(g, V(g), o)
       [] e.op = "prim_pred" -> PredVerdict(g, Reach(Nbs(g), g.s), g.s, o)
       [] e.op = "gabow" -> GabowVerdict(g, g.k, o)
       [] e.op = "bfs" -> BfsVerdict(g, g.s, g.d, o)
       [] e.op = "dfs" -> DfsVerdict(g, g.s, g.d, o)
       [] e.op = "bfs_tree" -> BfsTreeVerdict(g, g.s, o)
       [] e.op = "dfs_tree" -> DfsTreeVerdict(g, g.s, o)
       [] e.op = "components" -> Ret(o, LAMBDA r : IF { SetOf(r[i]) : i \in 1 .. Len(r) } # Components(g) THEN "classes"
                                                 ELSE IF SumSeq([i \in 1 .. Len(r) |-> Len(r[i])]) # g.n THEN "repeated" ELSE "ok")
       [] e.op = "component" -> Ret(o, LAMBDA r : IF SetOf(r) = Reach(Nbs(g), g.s) /\ NoDup(r) THEN "ok" ELSE "class")
       [] e.op = "is_connected" -> Is(o, Cardinality(Components(g)) <= 1)
=============================================================================
