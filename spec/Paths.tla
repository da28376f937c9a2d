------------------------------- MODULE Paths -------------------------------
(* Shortest paths.  The transition system is the relaxation machine: tentative
   distances d and predecessors p, and a set done of settled vertices.  Relax
   improves one label; Settle fixes a vertex of minimum tentative distance.
   PathsMC checks that every run of the machine ends in the declarative
   distances Dist; the judge below decides recorded results against Dist and
   replays the yields of the iterator as Settle steps of the machine.

   Input record: n, arcs = sequence of <<u, v, w>> (directed).               *)
EXTENDS GraphTheory, Judge

W(g) == TLCEval([u \in V(g) |-> [v \in V(g) |->
          LET is == {i \in 1 .. Len(g.arcs) : g.arcs[i][1] = u /\ g.arcs[i][2] = v}
          IN IF is = {} THEN INF ELSE g.arcs[CHOOSE i \in is : TRUE][3]]])

Plus(a, b) == IF a >= INF \/ b >= INF THEN INF ELSE a + b

(* declarative distance: k rounds of the Bellman equation from the source *)
RECURSIVE Rounds(_, _, _, _)
Rounds(w, vs, d, k) ==
  IF k = 0 THEN d
  ELSE LET e == TLCEval([v \in vs |-> MinOf({d[v]} \cup {Plus(d[u], w[u][v]) : u \in vs})])
       IN IF e = d THEN d ELSE Rounds(w, vs, e, k - 1)
Start(g, s) == [v \in V(g) |-> IF v = s THEN 0 ELSE INF]
Dist(g, w, s) == Rounds(w, V(g), Start(g, s), g.n)
\* a further improvement after n rounds means a reachable negative cycle
NegCycle(g, w, s) == LET d == Dist(g, w, s) IN Rounds(w, V(g), d, 1) # d

(* the relaxation machine *)
Relaxable(w, d, u, v) == Plus(d[u], w[u][v]) < d[v]
CanSettle(vs, d, done, u) == u \notin done /\ d[u] < INF /\ \A x \in vs \ done : d[u] <= d[x]
RelaxFrom(w, vs, d, u) == TLCEval([v \in vs |-> MinOf({d[v], Plus(d[u], w[u][v])})])

(* predecessors form a tree of tight edges rooted at s *)
RECURSIVE Climb(_, _, _)
Climb(p, v, k) == IF k = 0 THEN -1 ELSE IF p[v] = 0 THEN v ELSE Climb(p, p[v], k - 1)
GoodTree(g, w, s, d, p) ==
  CASE Len(p) # g.n -> "pred-size"
    [] p[s] # 0 -> "source-has-pred"
    [] \E v \in V(g) : d[v] = INF /\ p[v] # 0 -> "unreachable-has-pred"
    [] \E v \in V(g) : v # s /\ d[v] < INF /\ (p[v] \notin V(g) \/ Plus(d[p[v]], w[p[v]][v]) # d[v]) -> "pred-not-tight"
    [] \E v \in V(g) : d[v] < INF /\ Climb(p, v, g.n + 1) # s -> "pred-not-tree"
    [] OTHER -> "ok"

SameDist(g, d, v) == Len(v) = g.n /\ \A x \in V(g) : v[x] = d[x]

SingleSource(g, s, out) ==
  LET w == W(g)
  IN IF NegCycle(g, w, s) THEN Raises(out, "ValueError")
     ELSE LET d == Dist(g, w, s)
          IN Ret(out, LAMBDA r : IF ~ SameDist(g, d, r[1]) THEN "distance" ELSE GoodTree(g, w, s, d, r[2]))

(* the iterator: every yield <<v, dist, path>> is a Settle step *)
RECURSIVE IterRun(_, _, _, _, _, _)
IterRun(g, w, s, ys, d, done) ==
  IF ys = <<>> THEN IF \E x \in V(g) \ done : d[x] < INF THEN "stopped-early" ELSE "ok"
  ELSE LET y == Head(ys)
           u == y[1]
           p == y[3]
       IN CASE u \in done -> "yielded-twice"
            [] ~ CanSettle(V(g), d, done, u) -> "yield-order"
            [] y[2] # d[u] -> "yield-distance"
            [] Len(p) = 0 \/ p[1] # s \/ p[Len(p)] # u -> "path-ends"
            [] \E i \in 1 .. Len(p) - 1 : w[p[i]][p[i + 1]] = INF -> "path-edge"
            [] SumSeq([i \in 1 .. Len(p) - 1 |-> w[p[i]][p[i + 1]]]) # d[u] -> "path-weight"
            [] OTHER -> IterRun(g, w, s, Tail(ys), RelaxFrom(w, V(g), d, u), done \cup {u})

Bidirectional(g, s, t, out) ==
  LET w == W(g)
      d == Dist(g, w, s)
  IN IF d[t] = INF THEN Ret(out, LAMBDA r : IF r[1] = INF THEN "ok" ELSE "unreachable")
     ELSE Ret(out, LAMBDA r :
       LET p == r[2]
       IN CASE r[1] # d[t] -> "distance"
            [] Len(p) = 0 -> "no-path"
            [] p[1] # s \/ p[Len(p)] # t -> "path-ends"
            [] \E i \in 1 .. Len(p) - 1 : w[p[i]][p[i + 1]] = INF -> "path-edge"
            [] SumSeq([i \in 1 .. Len(p) - 1 |-> w[p[i]][p[i + 1]]]) # d[t] -> "path-weight"
            [] OTHER -> "ok")

AllPairs(g, out) ==
  LET w == W(g)
  IN IF \E s \in V(g) : NegCycle(g, w, s) THEN Raises(out, "ValueError")
     ELSE Ret(out, LAMBDA r :
       LET bad == { s \in V(g) : ~ SameDist(g, Dist(g, w, s), r[1][s]) }
       IN IF bad # {} THEN "distance"
          ELSE FirstBad([s \in 1 .. g.n |-> GoodTree(g, w, s, r[1][s], r[2][s])]))

PathsVerdict(e) ==
  LET g == e.in
  IN CASE g.s = 0 -> Raises(e.out, "ValueError")        \* source is not a vertex
       [] e.op = "dijkstra_bidirectional" /\ g.t = 0 -> Raises(e.out, "ValueError")
       \* bucket queues need integral weights: a reachable half-integral one is refused
       [] e.op = "dijkstra_buckets" /\ "half" \in DOMAIN g /\ (\E i \in 1 .. Len(g.arcs) : g.arcs[i][1] = g.s) ->
            IF \E i \in 1 .. Len(g.arcs) : g.arcs[i][3] % 2 = 1 /\ Dist(g, W(g), g.s)[g.arcs[i][1]] < INF
            THEN Raises(e.out, "ValueError") ELSE "ok"
       [] e.op \in {"dijkstra", "dijkstra_buckets", "dijkstra_pairing_heap", "bellman_ford"} -> SingleSource(g, g.s, e.out)
       [] e.op = "dijkstra_iterator" -> Ret(e.out, LAMBDA ys : IterRun(g, W(g), g.s, ys, Start(g, g.s), {}))
       [] e.op = "dijkstra_bidirectional" -> Bidirectional(g, g.s, g.t, e.out)
       [] e.op = "floyd_warshall" -> AllPairs(g, e.out)
=============================================================================
