------------------------------ MODULE PathsMC ------------------------------
(* Every run of the relaxation machine, in any order of steps, on every
   weighted digraph with Size vertices and weights in Weights, keeps labels
   above the true distance and ends exactly in it; settled labels are final. *)
EXTENDS Paths
CONSTANTS Size, Weights
VARIABLES g, d, done
vars == <<g, d, done>>

Pairs == { <<u, v>> \in (1 .. Size) \X (1 .. Size) : u < v }
Graphs == { [n |-> Size, s |-> 1, t |-> 1,
             arcs |-> SetToSeq(UNION { {<<p[1], p[2], f[p]>>, <<p[2], p[1], f[p]>>} : p \in {q \in Pairs : f[q] # INF} })]
            : f \in [Pairs -> Weights \cup {INF}] }

Init == g \in Graphs /\ d = Start(g, 1) /\ done = {}
\* label correcting (Bellman-Ford): any relaxable arc
Relax == \E u, v \in V(g) : /\ done = {}
                            /\ Relaxable(W(g), d, u, v)
                            /\ d' = [d EXCEPT ![v] = d[u] + W(g)[u][v]]
                            /\ UNCHANGED <<g, done>>
\* label setting (Dijkstra): only from the initial labels on
Settle == \E u \in V(g) : /\ (done = {} => d = Start(g, 1))
                          /\ CanSettle(V(g), d, done, u)
                          /\ done' = done \cup {u}
                          /\ d' = RelaxFrom(W(g), V(g), d, u)
                          /\ UNCHANGED g
Next == Relax \/ Settle
Spec == Init /\ [][Next]_vars

True == Dist(g, W(g), 1)
Above == \A v \in V(g) : d[v] >= True[v]
SettledFinal == \A v \in done : d[v] = True[v]
Quiescent == (\A u, v \in V(g) : ~ Relaxable(W(g), d, u, v)) => d = True
AllSettled == (done # {} /\ \A v \in V(g) : d[v] < INF => v \in done) => d = True
=============================================================================
