----------------------------- MODULE CliquesMC -----------------------------
(* The enumeration machine of all maximal cliques as a transition system: a
   stack of open nodes <<R, P, X>>; expanding a node branches on ANY candidate
   vertex (so every pivot and vertex order of Bron-Kerbosch and its variants is
   a run) and a node without candidates and forbidden vertices emits R.
   Checked on every graph up to Size vertices: emitted sets are maximal and
   never repeated, and at the end nothing is missing.  The recurrences used as
   oracles are checked against the definitions on the same graphs.           *)
EXTENDS Cliques
CONSTANT Size
VARIABLES g, open, emitted, twice
vars == <<g, open, emitted, twice>>
Pairs == { <<u, v>> \in (1 .. Size) \X (1 .. Size) : u < v }
Graphs == { [n |-> Size, edges |-> SetToSeq({ <<p[1], p[2], 1>> : p \in S })] : S \in SUBSET Pairs }
Init == g \in Graphs /\ open = { <<{}, V(g), {}>> } /\ emitted = {} /\ twice = FALSE
Step == /\ open # {}
        /\ LET nd == CHOOSE x \in open : TRUE
               R == nd[1] P == nd[2] X == nd[3]
           IN \/ /\ P = {} /\ open' = open \ {nd}
                 /\ emitted' = IF X = {} THEN emitted \cup {R} ELSE emitted
                 /\ twice' = (twice \/ (X = {} /\ R \in emitted))
              \/ /\ P # {}
                 /\ \E q \in P :
                      open' = (open \ {nd}) \cup { <<R \cup {q}, P \cap Nbs(g)[q], X \cap Nbs(g)[q]>>, <<R, P \ {q}, X \cup {q}>> }
                 /\ UNCHANGED <<emitted, twice>>
        /\ g' = g
Spec == Init /\ [][Step]_vars
Sound == emitted \subseteq MaximalCliques(g) /\ ~ twice
Complete == (open = {}) => emitted = MaximalCliques(g)
Oracles == (emitted = {} /\ open = { <<{}, V(g), {}>> }) =>
  LET nb == Nbs(g)
      cl == Cliques(g)
      w == [v \in V(g) |-> 1 + ((v * v) % 4)]
      ch == { col \in [V(g) -> 1 .. g.n] : \A u \in V(g) : \A v \in nb[u] : col[u] # col[v] }
  IN /\ Omega(nb, V(g)) = MaxOf({ Cardinality(s) : s \in cl })
     /\ OmegaW(nb, w, V(g)) = MaxOf({ SumOver(w, s) : s \in cl })
     /\ AllMaximalCliques(nb, V(g)) = MaximalCliques(g)
     /\ AllMaximalCliques(CoNbs(g), V(g)) = MaximalIndeps(g)
     /\ ChromaticNumber(g) = MinOf({ Cardinality({ c[v] : v \in V(g) }) : c \in ch })
=============================================================================
