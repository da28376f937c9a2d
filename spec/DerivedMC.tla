----------------------------- MODULE DerivedMC -----------------------------
(* The order machine takes any vertex of least degree in the graph induced by
   the vertices left: its completed runs are the orders the verdict accepts.
   Laws tie the derived objects together (degree sum, complement, the number
   of spanning trees as a minor of the Laplacian), and the invariants used for
   the Petersen graph leave no other graph.                                  *)
EXTENDS Derived
CONSTANTS Size, Odd
VARIABLES g, order, left
vars == <<g, order, left>>
Pairs == { <<u, v>> \in (1 .. Size) \X (1 .. Size) : u < v }
Graphs == { [n |-> Size, edges |-> SetToSeq({ <<p[1], p[2], 1>> : p \in S })] : S \in SUBSET Pairs }
nb == Nbs(g)
Init == g \in Graphs /\ order = <<>> /\ left = 1 .. Size
Inner(u) == Cardinality(nb[u] \cap left)
Take == \E v \in left : /\ \A u \in left : Inner(v) <= Inner(u)
                        /\ order' = Append(order, v) /\ left' = left \ {v} /\ g' = g
Next == Take
Spec == Init /\ [][Next]_vars
Start == order = <<>>
Out(v) == [k |-> "ret", v |-> v]
Call(op, v) == DVerdict([op |-> op, in |-> [n |-> g.n, edges |-> g.edges, sub |-> SetToSeq({1, Size})], out |-> Out(v)])
Sound == left = {} => Call("order_induced", order) = "ok" /\ Call("order_induced_rev", Reverse(order)) = "ok"
RECURSIVE Runs(_, _)
Runs(o, S) == IF S = {} THEN {o}
              ELSE UNION { Runs(Append(o, v), S \ {v}) : v \in { x \in S : \A u \in S : Cardinality(nb[x] \cap S) <= Cardinality(nb[u] \cap S) } }
Exact == Start => { p \in SetToSeqs(1 .. Size) : Call("order_induced", p) = "ok" } = Runs(<<>>, 1 .. Size)
\* the degeneracy is the largest degree at removal, the same in every run
RECURSIVE Core(_)
Core(S) == IF S = {} THEN 0 ELSE MaxOf({ MinOf({ Cardinality(nb[u] \cap X) : u \in X }) : X \in (SUBSET S) \ {{}} })
Degenerate == Start => \A p \in Runs(<<>>, 1 .. Size) :
  MaxOf({ Cardinality(nb[p[i]] \cap SetOf(SubSeq(p, i, Size))) : i \in 1 .. Size }) = Core(1 .. Size)
Minor == LET L(i, j) == DegreeEntry(nb, [x \in 1 .. Size |-> x], i, j) - Adjacency(nb, [x \in 1 .. Size |-> x], i, j)
         IN [i \in 1 .. Size - 1 |-> [j \in 1 .. Size - 1 |-> L(i, j)]]
RECURSIVE Det(_)
Det(m) ==
  IF Len(m) = 0 THEN 1
  ELSE FoldSet(LAMBDA j, a : a + (IF j % 2 = 1 THEN 1 ELSE -1) * m[1][j] *
                 (IF m[1][j] = 0 THEN 0 ELSE Det([i \in 1 .. Len(m) - 1 |-> [k \in 1 .. Len(m) - 1 |-> m[i + 1][IF k < j THEN k ELSE k + 1]]])), 0, DOMAIN m)
Kirchhoff == Start => Det(Minor) = IF Connected(g) THEN Cardinality(SpanningForests(g)) ELSE 0
\* recorded graphs, as the harness writes them
Rec(vs, ps) == [vs |-> SetToSeq(vs), es |-> SetToSeq({ <<MinOf(p), MaxOf(p), 1>> : p \in ps })]
AllPairs == { q \in SUBSET (1 .. Size) : Cardinality(q) = 2 }
Complement == Start =>
  { X \in SUBSET AllPairs : Call("complement", Rec(1 .. Size, X)) = "ok" } = { AllPairs \ EdgePairs(g) }
DegreeSum == Start =>
  /\ FoldSet(LAMBDA u, a : a + Deg(nb, u), 0, 1 .. Size) = 2 * Len(g.edges)
  /\ Call("total_degree", Deg(nb, 1) + Deg(nb, Size)) = "ok"
  /\ Call("maximum_degree", MaxOf({ Deg(nb, u) : u \in V(g) })) = "ok" /\ Call("density", <<2 * Len(g.edges), 1>>) = "ok"
-----------------------------------------------------------------------------
(* the Petersen graph: vertex 0 with neighbours 1, 2, 3; two further
   neighbours for each of these, 4 .. 9 (no triangle, no square); then six
   edges among 4 .. 9                                                        *)
Rim == { q \in SUBSET (4 .. 9) : Cardinality(q) = 2 }
Spokes == { {0, 1}, {0, 2}, {0, 3}, {1, 4}, {1, 5}, {2, 6}, {2, 7}, {3, 8}, {3, 9} }
Cubic == { X \in kSubset(6, Rim) : \A v \in 4 .. 9 : Cardinality({ p \in X : v \in p }) = 2 }
Pet(ps) == DVerdict([op |-> "petersen_graph", in |-> [n |-> 0], out |-> Out(Rec(0 .. 9, ps))])
Found == { X \in Cubic : Pet(Spokes \cup X) = "ok" }
\* renamings of 4 .. 9 that keep the spokes: swap within and permute the three pairs
Shuffles == { [v \in 4 .. 9 |-> LET b == (v - 4) \div 2 IN 4 + 2 * (p[b + 1] - 1) + (((v - 4) + s[b + 1]) % 2)] :
              p \in SetToSeqs(1 .. 3), s \in [1 .. 3 -> {0, 1}] }
Image(f, X) == { { f[v] : v \in p } : p \in X }
OnePetersen == /\ Found # {} /\ \E X \in Found : Found = { Image(f, X) : f \in Shuffles }
\* the disjointness graphs of the small subsets pass as odd graphs
OddRec(k) ==
  LET vs == SetToSeq(kSubset(k - 1, 0 .. (2 * k) - 2))
      D == 1 .. Len(vs)
  IN [vs |-> [i \in D |-> i], names |-> [i \in D |-> SetToSeq(vs[i])],
      es |-> SetToSeq({ <<p[1], p[2], 1>> : p \in { q \in D \X D : q[1] < q[2] /\ vs[q[1]] \cap vs[q[2]] = {} } })]
OddOk == \A k \in Odd : DVerdict([op |-> "odd_graph", in |-> [n |-> k], out |-> Out(OddRec(k))]) = "ok"
OddIsPetersen == LET r == OddRec(3) IN DVerdict([op |-> "petersen_graph", in |-> [n |-> 0], out |-> Out(r)]) = "ok"
ASSUME OnePetersen
ASSUME OddOk
ASSUME OddIsPetersen
=============================================================================
