------------------------------ MODULE Packing ------------------------------
(* C06: 0/1 knapsack.  Items are <<value, weight>>; the values of an event
   marked big are big integers, which a fractional bound computed in floating
   point cannot tell apart.                                                  *)
EXTENDS Judge, Big, FiniteSetsExt
SumV(s) == FoldLeft(LAMBDA a, x : a + x[1], 0, s)
BSumV(s) == FoldLeft(LAMBDA a, x : TLCEval(ZAdd(a, x[1])), <<0>>, s)
SumW(s) == FoldLeft(LAMBDA a, x : a + x[2], 0, s)
\* the set of reachable (weight, value) pairs, dominated pairs removed
Prune(S) == { p \in S : ~\E q \in S : q # p /\ q[1] <= p[1] /\ q[2] >= p[2] }
Reach(items, cap) ==
  FoldLeft(LAMBDA S, x : TLCEval(Prune(S \cup { <<p[1] + x[2], p[2] + x[1]>> : p \in { q \in S : q[1] + x[2] <= cap } })), { <<0, 0>> }, items)
Optimum(items, cap) == Max({ p[2] : p \in Reach(items, cap) })
BPrune(S) == { p \in S : ~\E q \in S : q # p /\ q[1] <= p[1] /\ ZLe(p[2], q[2]) }
BReach(items, cap) ==
  FoldLeft(LAMBDA S, x : TLCEval(BPrune(S \cup { <<p[1] + x[2], ZAdd(p[2], x[1])>> : p \in { q \in S : q[1] + x[2] <= cap } })), { <<0, <<0>>>> }, items)
BOptimum(items, cap) == LET S == { p[2] : p \in BReach(items, cap) } IN CHOOSE v \in S : \A u \in S : ZLe(u, v)
Count(s, x) == Cardinality({ i \in DOMAIN s : s[i] = x })
TakenFrom(u, items) == \A i \in DOMAIN u : Count(u, u[i]) <= Count(items, u[i])
Packed(v, used, items, cap, big) == FirstBad(<<
  Cl("argument-changed-or-item-invented", TakenFrom(used, items)),
  Cl("over-capacity", SumW(used) <= cap),
  Cl("value-of-selection", (IF big THEN BSumV(used) ELSE SumV(used)) = v)>>)
PackVerdict(e) ==
  LET a == e.in
      big == "big" \in DOMAIN a
  IN
  CASE e.op \in {"depth_first", "dynamic_programming", "branch_and_bound_depth_first"} ->
       Ret(e.out, LAMBDA r : FirstBad(<<
         Cl("argument-changed", r[3] = a.items),
         Packed(r[1], r[2], a.items, a.cap, big),
         Cl("not-optimal", r[1] = (IF big THEN BOptimum(a.items, a.cap) ELSE Optimum(a.items, a.cap))),
         \* branch and bound also names the position of every item used
         Cl("positions", e.op # "branch_and_bound_depth_first" \/
            /\ Cardinality({ r[4][i] : i \in DOMAIN r[4] }) = Len(r[2])
            /\ \A i \in DOMAIN r[2] : r[4][i] \in 1 .. Len(a.items) /\ a.items[r[4][i]] = r[2][i])>>))
    [] e.op = "simulated_annealing" ->
       Ret(e.out, LAMBDA r : LET x == r[2] n == Len(a.items)
                                 used == [i \in 1 .. n |-> IF x[i] = 1 THEN a.items[i] ELSE <<0, 0>>]
         IN IF Len(x) # n \/ \E i \in DOMAIN x : x[i] \notin {0, 1} THEN "not-a-selection"
            ELSE FirstBad(<<Cl("argument-changed", r[3] = a.items), Cl("over-capacity", SumW(used) <= a.cap), Cl("value", SumV(used) = r[1])>>))
=============================================================================
