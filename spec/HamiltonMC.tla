----------------------------- MODULE HamiltonMC -----------------------------
(* The path machine on every small graph: a partial path grows by any unused
   neighbour, with or without giving up when the unused vertices fall apart.
   Completed paths are the orders of the vertices with neighbours side by
   side; giving up loses none; the counter of the verdict is their number; the
   listing verdict accepts every order of them and nothing shorter or longer;
   the walk counter agrees with the walks themselves.                        *)
EXTENDS Hamilton
CONSTANTS Size, Long
VARIABLES g, path
vars == <<g, path>>
Pairs == { <<u, v>> \in (1 .. Size) \X (1 .. Size) : u < v }
Graphs == { [n |-> Size, edges |-> SetToSeq({ <<p[1], p[2], 1>> : p \in S })] : S \in SUBSET Pairs }
nb == Nbs(g)
Unused == V(g) \ SetOf(path)
Init == g \in Graphs /\ \E v \in 1 .. Size : path = <<v>>
Whole(S) == S = {} \/ Reach([u \in S |-> nb[u] \cap S], CHOOSE x \in S : TRUE) = S
Extend == \E v \in nb[path[Len(path)]] \cap Unused : path' = Append(path, v) /\ g' = g
Next == Extend
Spec == Init /\ [][Next]_vars
\* the definition: permutations with neighbours side by side
Perms == SetToSeqs(1 .. Size)
Defined == { p \in Perms : \A i \in 1 .. Size - 1 : p[i + 1] \in nb[p[i]] }
Simple == Len(path) = Cardinality(SetOf(path)) /\ \A i \in 1 .. Len(path) - 1 : path[i + 1] \in nb[path[i]]
Complete == Unused = {} => path \in HamPaths(g)
\* a prefix whose unused vertices fall apart has no completion
Prunable == ~ Whole(Unused) => PathsFrom(nb, path, Unused) = {}
Counted == CountFrom(nb, path[Len(path)], Unused) = Cardinality(PathsFrom(nb, path, Unused))
Start == path = <<1>>
Agreed == Start => /\ HamPaths(g) = Defined
                   /\ HamCount(g) = Cardinality(Defined)
Lst(v) == ListRun(v, HamPaths(g), {})
Listing == Start =>
  LET s == SetToSeq(Defined) IN
  /\ Lst(s) = "ok" /\ Lst(Reverse(s)) = "ok"
  /\ s # <<>> => /\ Lst(Tail(s)) = "missing" /\ Lst(Append(s, s[1])) = "repeated" /\ Lst(<<s[1]>> \o s) = "repeated"
  /\ \A p \in Perms \ Defined : Lst(<<p>> \o s) = "not-hamiltonian" /\ Lst(Append(s, p)) = "not-hamiltonian"
\* walks of length k from s inside S, one by one
RECURSIVE WalkSet(_, _, _)
WalkSet(S, s, k) == IF k = 0 THEN {<<s>>} ELSE UNION { { Append(w, u) : u \in nb[w[Len(w)]] \cap S } : w \in WalkSet(S, s, k - 1) }
Walked == Start => \A S \in SUBSET V(g) : \A s \in S : \A k \in 0 .. Long :
  LET all == TLCEval(WalkSet(S, s, k)) w == Walks(nb, S, s, k) IN
  \A u \in S : w[u] = Cardinality({ x \in all : x[Len(x)] = u })
=============================================================================
