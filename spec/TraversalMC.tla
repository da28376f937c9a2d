---------------------------- MODULE TraversalMC ----------------------------
(* The queue machine and the stack machine of a graph traversal, run on every
   graph with Size vertices from vertex 1.  Every completed run is accepted by
   the verdicts on orders and trees that judge the implementation, no order is
   accepted that no run produces (nor a depth-first tree; the breadth-first
   trees are those of shortest paths), and without a depth limit the orders are the
   ones with the three-point property of breadth- and depth-first orders.    *)
EXTENDS Trees
CONSTANTS Size, Limits
VARIABLES g, mode, lim, work, ys, par
vars == <<g, mode, lim, work, ys, par>>
Pairs == { <<u, v>> \in (1 .. Size) \X (1 .. Size) : u < v }
Graphs == { [n |-> Size, edges |-> SetToSeq({ <<p[1], p[2], 1>> : p \in S })] : S \in SUBSET Pairs }
Init == /\ g \in Graphs /\ mode \in {"bfs", "dfs"} /\ lim \in Limits \cup {-1}
        /\ work = <<1>> /\ ys = <<1>> /\ par = [v \in 1 .. Size |-> IF v = 1 THEN 0 ELSE -1]
nb == Nbs(g)
Seen == SetOf(ys)
RECURSIVE DepthOf(_, _)
DepthOf(p, v) == IF p[v] <= 0 THEN 0 ELSE 1 + DepthOf(p, p[v])
Deeper(u) == lim < 0 \/ DepthOf(par, u) < lim
At == IF mode = "bfs" THEN Head(work) ELSE work[Len(work)]
Ready == work # <<>> /\ Deeper(At) /\ nb[At] \ Seen # {}
Visit == /\ Ready
         /\ \E v \in nb[At] \ Seen : /\ work' = Append(work, v)
                                     /\ ys' = Append(ys, v)
                                     /\ par' = [par EXCEPT ![v] = At]
         /\ UNCHANGED <<g, mode, lim>>
Leave == /\ work # <<>> /\ ~ Ready
         /\ work' = IF mode = "bfs" THEN Tail(work) ELSE SubSeq(work, 1, Len(work) - 1)
         /\ UNCHANGED <<g, mode, lim, ys, par>>
Next == Visit \/ Leave
Spec == Init /\ [][Next]_vars
Out(v) == [k |-> "ret", v |-> v]
OrderOk(m, r) == (IF m = "bfs" THEN BfsVerdict(g, 1, lim, Out(r)) ELSE DfsVerdict(g, 1, lim, Out(r))) = "ok"
TreeOk(m, p) == (IF m = "bfs" THEN BfsTreeVerdict(g, 1, Out(p)) ELSE DfsTreeVerdict(g, 1, Out(p))) = "ok"
Sound == work = <<>> => OrderOk(mode, ys) /\ (lim < 0 => TreeOk(mode, par))
\* all completed runs, as a set
RECURSIVE Runs(_, _, _, _)
Runs(m, w, y, p) ==
  IF w = <<>> THEN {<<y, p>>}
  ELSE LET u == IF m = "bfs" THEN Head(w) ELSE w[Len(w)]
           new == IF lim >= 0 /\ DepthOf(p, u) >= lim THEN {} ELSE nb[u] \ SetOf(y)
       IN IF new = {} THEN Runs(m, IF m = "bfs" THEN Tail(w) ELSE SubSeq(w, 1, Len(w) - 1), y, p)
          ELSE UNION { Runs(m, Append(w, v), Append(y, v), [p EXCEPT ![v] = u]) : v \in new }
Start == ys = <<1>> /\ work = <<1>>
Orders == UNION { { <<1>> \o s : s \in SetToSeqs(S) } : S \in SUBSET (2 .. Size) }
\* what a predecessor map of a run can be at most: the root has none, vertices
\* out of reach stay unassigned, the others have a neighbour
Parents == { p \in [1 .. Size -> -1 .. Size] : p[1] = 0 /\ \A v \in 2 .. Size : IF v \in Reach(nb, 1) THEN p[v] \in nb[v] ELSE p[v] = -1 }
\* the breadth-first trees are the trees of shortest paths (a run also hangs
\* all vertices at one level under the earliest possible parents, which the
\* verdict leaves open)
RECURSIVE Steps(_, _, _)
Steps(S, v, k) == IF v \in S THEN k ELSE Steps(S \cup UNION { nb[u] : u \in S }, v, k + 1)
ShortestTree(p) == \A v \in Reach(nb, 1) \ {1} : Steps({1}, v, 0) = 1 + Steps({1}, p[v], 0)
Complete == Start =>
  LET runs == TLCEval(Runs(mode, work, ys, par)) IN
  /\ { r \in Orders : OrderOk(mode, r) } = { x[1] : x \in runs }
  /\ lim < 0 => { p \in Parents : TreeOk(mode, p) } = IF mode = "dfs" THEN { x[2] : x \in runs } ELSE { p \in Parents : ShortestTree(p) }
\* a < b < c in the order, an edge from a to c but none from a to b: b has a
\* neighbour before a (breadth first) or between a and b (depth first)
ThreePoint(m, r) ==
  /\ SetOf(r) = Reach(nb, 1)
  /\ \A i, j, k \in DOMAIN r : i < j /\ j < k /\ r[k] \in nb[r[i]] /\ r[j] \notin nb[r[i]] =>
       \E h \in DOMAIN r : r[h] \in nb[r[j]] /\ IF m = "bfs" THEN h < i ELSE i < h /\ h < j
Characterised == Start /\ lim < 0 => \A r \in Orders : OrderOk(mode, r) <=> ThreePoint(mode, r)
=============================================================================
