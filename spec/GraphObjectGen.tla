--------------------------- MODULE GraphObjectGen ---------------------------
(* All histories of Depth operations on handle 1 and the graphs derived from
   it (into handle 2), over vertices 1..3.                                   *)
EXTENDS GraphObject, Json
CONSTANTS Depth
VARIABLES st, hist
vars == <<st, hist>>
Vx == 1 .. 3
Start2 == { << >>, << <<1, 2, 1>>, <<2, 3, 2>> >>, << <<1, 2, 3>>, <<1, 3, 1>>, <<2, 3, 2>> >> }
Mut(h) ==
  {<<"add_vertex", h, u>> : u \in {1, 3}} \cup {<<"delete_vertex", h, u>> : u \in Vx}
  \cup {<<"add_edge", h, p[1], p[2], x, x + 1>> : p \in {<<1, 2>>, <<3, 2>>}, x \in {1, 4}}
  \cup {<<"delete_edge", h, p[1], p[2], 1>> : p \in {<<2, 1>>, <<1, 3>>}}
  \cup {<<"delete_vertices", h, <<1, 3>>>>, <<"touch", h>>}
Derive ==
  {<<"copy", 1, 2>>, <<"remove_vertex", 1, 2, 2>>, <<"remove_vertices", 1, <<2, 3>>, 2>>, <<"remove_edge", 1, 1, 2, 2>>,
   <<"remove_neighborhood", 1, 2, 2>>, <<"remove_closed_neighborhood", 1, 1, 2>>, <<"induced_subgraph", 1, <<1, 2>>, 2>>,
   <<"complement", 1, 2>>, <<"copy", 2, 1>>}
Init == \E es \in Start2 : LET op == <<"add_edges", 1, es>> IN st = Apply(GInit(0), op) /\ hist = <<op>>
Next == /\ Len(hist) < Depth + 1
        /\ \E op \in Mut(1) \cup Mut(2) \cup Derive :
             /\ Enabled(st, op)
             /\ st' = Apply(st, op) /\ hist' = Append(hist, op)
Spec == Init /\ [][Next]_vars
Simple == \A x \in 1 .. 3 : SimpleGraph(st[x])
\* laws of the algebra of graphs
ComplementTwice == \A x \in 1 .. 3 : DOMAIN Complement(Complement(st[x])).w = DOMAIN st[x].w
RemoveIsInduced == \A x \in 1 .. 3, u \in Vx : u \in st[x].vs => DelVs(st[x], {u}) = Induced(st[x], st[x].vs \ {u})
Handshake == \A x \in 1 .. 3 : FoldSet(LAMBDA u, a : a + Degree(st[x], u), 0, st[x].vs) = 2 * Cardinality(DOMAIN st[x].w)
Emit == Len(hist) = Depth + 1 => PrintT("GEN|" \o ToJson([op |-> "graph", in |-> [ops |-> hist]]))
=============================================================================
