------------------------------ MODULE TreesMC ------------------------------
(* The light-edge machine: repeatedly choose any component and any lightest
   edge leaving it.  Prim, Kruskal and Cheriton-Tarjan are schedules of it.
   Every run on every small graph ends in a minimum spanning forest; and the
   spanning trees of a graph are connected by weight-decreasing exchanges,
   which is what the k-best enumeration relies on.                           *)
EXTENDS Trees
CONSTANTS Size, Weights
VARIABLES g, f, comp
vars == <<g, f, comp>>
Pairs == { <<u, v>> \in (1 .. Size) \X (1 .. Size) : u < v }
Graphs == { [n |-> Size, edges |-> SetToSeq({ <<p[1], p[2], a[p]>> : p \in {q \in Pairs : a[q] # 0} })] : a \in [Pairs -> Weights \cup {0}] }
Init == g \in Graphs /\ f = {} /\ comp = { {u} : u \in V(g) }
Leaving(c) == { e \in EdgePairs(g) : Cardinality(e \cap c) = 1 }
Add == \E c \in comp : \E e \in Leaving(c) :
          /\ \A x \in Leaving(c) : EdgeWeight(g)[e] <= EdgeWeight(g)[x]
          /\ f' = f \cup {e}
          /\ LET a == { k \in comp : k \cap e # {} } IN comp' = (comp \ a) \cup {UNION a}
          /\ g' = g
Next == Add
Spec == Init /\ [][Next]_vars
All == SpanningForests(g)
Final == \A c \in comp : Leaving(c) = {}
Minimum == Final => /\ f \in All
                    /\ \A t \in All : TreeWeight(EdgeWeight(g), f) <= TreeWeight(EdgeWeight(g), t)
                    /\ TreeWeight(EdgeWeight(g), f) = MinForestWeight(g)
ForestInv == IsForestOn(V(g), f) /\ comp = { Reach(NbsOf(V(g), f), u) : u \in V(g) }
\* every tree that is not minimum is one exchange away from a lighter one
Exchange == (f = {}) => \A t \in All :
              LET w == EdgeWeight(g)
              IN TreeWeight(w, t) = MinForestWeight(g)
                 \/ \E s \in All : Cardinality(s \ t) = 1 /\ TreeWeight(w, s) < TreeWeight(w, t)
=============================================================================
