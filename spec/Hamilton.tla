------------------------------ MODULE Hamilton ------------------------------
(* Hamiltonian paths.  The path machine extends a partial path by any unused
   neighbour; its completed runs are exactly the Hamiltonian paths.  A listing
   may emit any complete run not emitted before and stops when none is left;
   a counter must return their number.  A session is a list of calls on
   different graphs in one process.                                          *)
EXTENDS GraphTheory, Judge
RECURSIVE PathsFrom(_, _, _)
PathsFrom(nb, path, left) ==
  IF left = {} THEN {path}
  ELSE UNION { PathsFrom(nb, Append(path, v), left \ {v}) : v \in nb[path[Len(path)]] \cap left }
HamPaths(g) == LET nb == Nbs(g) IN UNION { PathsFrom(nb, <<v>>, V(g) \ {v}) : v \in V(g) }
RECURSIVE CountFrom(_, _, _)
CountFrom(nb, last, left) ==
  IF left = {} THEN 1
  ELSE FoldSet(LAMBDA v, acc : acc + CountFrom(nb, v, TLCEval(left \ {v})), 0, TLCEval(nb[last] \cap left))
HamCount(g) == LET nb == Nbs(g) IN FoldSet(LAMBDA v, acc : acc + CountFrom(nb, v, V(g) \ {v}), 0, V(g))
RECURSIVE ListRun(_, _, _)
ListRun(ys, left, seen) ==
  IF ys = <<>> THEN (IF left = {} THEN "ok" ELSE "missing")
  ELSE IF Head(ys) \in seen THEN "repeated"
  ELSE IF Head(ys) \notin left THEN "not-hamiltonian"
  ELSE ListRun(Tail(ys), left \ {Head(ys)}, seen \cup {Head(ys)})
Lists == {"hamiltonian_paths", "hamiltonian_paths_con"}
One(op, g, v) == IF op \in Lists THEN ListRun(v, HamPaths(g), {})
                 ELSE IF v = HamCount(g) THEN "ok" ELSE "count"
\* walks of length k inside S from s: one more step is a sum over the neighbours
RECURSIVE Walks(_, _, _, _)
Walks(nb, S, s, k) ==
  IF k = 0 THEN [u \in S |-> IF u = s THEN 1 ELSE 0]
  ELSE LET w == TLCEval(Walks(nb, S, s, k - 1)) IN TLCEval([u \in S |-> FoldSet(LAMBDA v, acc : acc + w[v], 0, nb[u] \cap S)])
WithinVerdict(e) ==
  LET g == e.in S == SetOf(g.sub) nb == Nbs(g) IN
  IF e.op = "walks"
  THEN Ret(e.out, LAMBDA r : Cl("walks", Len(r) = Cardinality(S) /\ SetOf(r) = LET w == Walks(nb, S, g.s, g.len) IN { <<u, w[u]>> : u \in S }))
  ELSE Is(e.out, S = {} \/ Reach([u \in S |-> nb[u] \cap S], CHOOSE x \in S : TRUE) = S)
HamiltonVerdict(e) ==
  IF e.op \in {"walks", "is_connected2"} THEN WithinVerdict(e) ELSE
  IF e.op = "session"
  THEN Ret(e.out, LAMBDA r : IF Len(r) # Len(e.in.calls) THEN "length"
                             ELSE FirstBad([i \in 1 .. Len(r) |-> One(e.in.calls[i].op, e.in.calls[i].in, r[i])]))
  ELSE Ret(e.out, LAMBDA v : One(e.op, e.in, v))
=============================================================================
