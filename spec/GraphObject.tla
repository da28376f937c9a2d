----------------------------- MODULE GraphObject -----------------------------
(* The graph object.  Abstract state: handle -> graph, a graph being its set of
   vertices vs and its weight map w on unordered pairs (simple, undirected).
   Every call returns an observation of every live handle, so that aliasing
   between graphs and stale adjacency are visible at the call that causes it. *)
EXTENDS GraphTheory, Judge

Empty == [vs |-> {}, w |-> <<>>]
GInit(in) == [x \in 1 .. 3 |-> Empty]

AddVs(G, S) == [G EXCEPT !.vs = @ \cup S]
DelVs(G, S) == [vs |-> G.vs \ S, w |-> Restrict(G.w, { p \in DOMAIN G.w : p \cap S = {} })]
AddE(G, u, v, x) == [vs |-> G.vs \cup {u, v}, w |-> ({u, v} :> x) @@ G.w]
DelE(G, u, v) == [G EXCEPT !.w = Restrict(G.w, DOMAIN G.w \ {{u, v}})]
RECURSIVE AddEs(_, _)
AddEs(G, es) == IF es = <<>> THEN G ELSE AddEs(AddE(G, es[1][1], es[1][2], es[1][3]), Tail(es))
Nb(G, u) == { v \in G.vs : {u, v} \in DOMAIN G.w /\ v # u }
Induced(G, S) == [vs |-> S, w |-> Restrict(G.w, { p \in DOMAIN G.w : p \subseteq S })]
Complement(G) == [vs |-> G.vs, w |-> [p \in { {a, b} : a, b \in G.vs } \ ({ {a} : a \in G.vs } \cup DOMAIN G.w) |-> 1]]

\* <<name, handle, args...>>; operations that return a new graph name its handle last
Apply(st, op) ==
  LET h == op[2]
      G == st[h]
      put(k, H) == [st EXCEPT ![k] = H]
  IN CASE op[1] = "add_vertex" -> put(h, AddVs(G, {op[3]}))
       [] op[1] = "add_vertices" -> put(h, AddVs(G, SetOf(op[3])))
       [] op[1] = "delete_vertex" -> put(h, DelVs(G, {op[3]}))
       [] op[1] = "delete_vertices" -> put(h, DelVs(G, SetOf(op[3])))
       [] op[1] = "add_edge" -> put(h, AddE(G, op[3], op[4], op[5]))
       [] op[1] = "add_edges" -> put(h, AddEs(G, op[3]))
       [] op[1] = "delete_edge" -> put(h, DelE(G, op[3], op[4]))
       [] op[1] = "new" -> put(h, Empty)
       [] op[1] \in {"touch", "bad_edge"} -> st
       [] op[1] = "copy" -> put(op[3], G)
       [] op[1] = "remove_vertex" -> put(op[4], DelVs(G, {op[3]}))
       [] op[1] = "remove_vertices" -> put(op[4], DelVs(G, SetOf(op[3])))
       [] op[1] = "remove_edge" -> put(op[5], DelE(G, op[3], op[4]))
       [] op[1] = "remove_neighborhood" -> put(op[4], DelVs(G, Nb(G, op[3])))
       [] op[1] = "remove_closed_neighborhood" -> put(op[4], DelVs(G, Nb(G, op[3]) \cup {op[3]}))
       [] op[1] = "induced_subgraph" -> put(op[4], Induced(G, SetOf(op[3])))
       [] op[1] = "complement" -> put(op[3], Complement(G))

Enabled(st, op) ==
  CASE op[1] \in {"remove_neighborhood", "remove_closed_neighborhood"} -> op[3] \in st[op[2]].vs
    [] op[1] = "induced_subgraph" -> SetOf(op[3]) \subseteq st[op[2]].vs
    [] OTHER -> TRUE

SortedSet(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
Degree(G, u) == Cardinality(Nb(G, u))

\* o is the observation of one handle through the query interface
ObsVerdict(G, o) ==
  LET vs == SortedSet(G.vs)
      n == Len(vs)
      E == { <<p, G.w[p]>> : p \in DOMAIN G.w }
  IN CASE o.v # vs -> "vertices"
       [] SetOf(o.vset) # G.vs \/ ~ NoDup(o.vset) \/ SetOf(o.iter) # G.vs \/ ~ NoDup(o.iter) -> "vertex-set"
       [] o.nv # n -> "num-vertices"
       [] o.ne # Cardinality(DOMAIN G.w) -> "num-edges"
       [] Len(o.e) # Cardinality(DOMAIN G.w) -> "edges"
       [] { <<{x[1], x[2]}, x[3]>> : x \in SetOf(o.e) } # E -> "edge-weights"
       [] { {x[1], x[2]} : x \in SetOf(o.ep) } # DOMAIN G.w \/ Len(o.ep) # Cardinality(DOMAIN G.w) -> "edge-pairs"
       [] \E i \in 1 .. n : SetOf(o.adj[i]) # { <<v, G.w[{vs[i], v}]>> : v \in Nb(G, vs[i]) } \/ ~ NoDup(o.adj[i]) -> "adjacency"
       [] \E i \in 1 .. n : o.deg[i] # Degree(G, vs[i]) -> "degree"
       [] \E i \in 1 .. n : SetOf(o.nb[i]) # Nb(G, vs[i]) -> "neighbors"
       [] \E i \in 1 .. n : SetOf(o.cnb[i]) # Nb(G, vs[i]) \cup {vs[i]} -> "closed-neighborhood"
       [] SetOf(o.leaves) # { u \in G.vs : Degree(G, u) = 1 } -> "leaves"
       [] o.tot # 2 * Cardinality(DOMAIN G.w) -> "total-degree"
       [] OTHER -> "ok"

GStep(st, op, out) ==
  IF out.k # "ret" THEN [v |-> "outcome:" \o out.k, st |-> st]
  ELSE LET s2 == Apply(st, op)
           vs == [x \in 1 .. 3 |-> ObsVerdict(s2[x], out.v[x])]
           bad == { x \in 1 .. 3 : vs[x] # "ok" }
       IN IF bad = {} THEN [v |-> "ok", st |-> s2]
          ELSE [v |-> LET x == MinOf(bad) IN vs[x], st |-> st]

\* design invariants
SimpleGraph(G) == \A p \in DOMAIN G.w : Cardinality(p) = 2 /\ p \subseteq G.vs
=============================================================================
