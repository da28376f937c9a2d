----------------------------- MODULE PackingMC -----------------------------
(* The branch and bound search as a transition system (nodes of the search
   tree on a stack, items in decreasing value density, fractional bound), and
   the exhaustive search; both end with the optimum by definition.           *)
EXTENDS Packing
CONSTANTS MaxItems, MaxV, MaxW, MaxCap
VARIABLES items, cap, stack, best, pruned
vars == <<items, cap, stack, best, pruned>>
Denser(x, y) == x[2] = 0 \/ (y[2] # 0 /\ x[1] * y[2] >= y[1] * x[2])
Sorted(s) == \A i \in 1 .. Len(s) - 1 : Denser(s[i], s[i + 1])
Universe == { s \in UNION { [1 .. n -> (0 .. MaxV) \X (0 .. MaxW)] : n \in 0 .. MaxItems } : Sorted(s) }
\* node: [i (next item), v, w]
Init == items \in Universe /\ cap \in 0 .. MaxCap /\ stack = <<[i |-> 1, v |-> 0, w |-> 0]>> /\ best = 0 /\ pruned = {}
\* the fractional bound of a node, as a comparison: bound <= b
RECURSIVE Take(_, _, _)
Take(i, room, v) == IF i > Len(items) THEN <<v, 0, 1>>
                    ELSE IF items[i][2] > room THEN <<v, items[i][1] * room, items[i][2]>>
                    ELSE Take(i + 1, room - items[i][2], v + items[i][1])
BoundLe(nd, b) == LET t == Take(nd.i, cap - nd.w, nd.v) IN t[1] * t[3] + t[2] <= b * t[3]
Step ==
  /\ stack # <<>>
  /\ LET nd == Head(stack)
         b == IF nd.v > best THEN nd.v ELSE best
         kids == IF nd.i > Len(items) THEN <<>>
                 ELSE (IF nd.w + items[nd.i][2] <= cap THEN <<[i |-> nd.i + 1, v |-> nd.v + items[nd.i][1], w |-> nd.w + items[nd.i][2]]>> ELSE <<>>)
                      \o <<[i |-> nd.i + 1, v |-> nd.v, w |-> nd.w]>>
     IN IF BoundLe(nd, b) THEN best' = b /\ stack' = Tail(stack) /\ pruned' = pruned \cup {nd}
        ELSE best' = b /\ stack' = kids \o Tail(stack) /\ UNCHANGED pruned
  /\ UNCHANGED <<items, cap>>
Next == Step
Spec == Init /\ [][Next]_vars
OptDef == Max({ LET u == [i \in DOMAIN items |-> IF i \in S THEN items[i] ELSE <<0, 0>>]
                IN IF SumW(u) <= cap THEN SumV(u) ELSE 0 : S \in SUBSET DOMAIN items })
\* the best completion of an open node never falls below the optimum while it is not found
Complete(nd) == nd.v + Optimum(SubSeq(items, nd.i, Len(items)), cap - nd.w)
NothingLost == Max({best} \cup { Complete(stack[i]) : i \in DOMAIN stack }) = OptDef
Optimal == stack = <<>> => best = OptDef /\ best = Optimum(items, cap)
=============================================================================
