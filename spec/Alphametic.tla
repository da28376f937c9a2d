----------------------------- MODULE Alphametic -----------------------------
(* C08: alphametic puzzles.  Words are sequences of letter numbers.  The
   solutions are found column by column from the right with the running
   difference carried to the left; AlphameticMC compares this with the
   definition (all injective digit assignments).                             *)
EXTENDS Judge, SequencesExt, FiniteSetsExt
SetOf(s) == { s[i] : i \in DOMAIN s }
Letters(ws) == UNION { { ws[i][j] : j \in DOMAIN ws[i] } : i \in DOMAIN ws }
Firsts(ws) == { ws[i][1] : i \in DOMAIN ws }
ColLetters(ws, c) == { ws[i][(Len(ws[i]) - c) + 1] : i \in { k \in DOMAIN ws : Len(ws[k]) >= c } }
ColSum(ws, c, m) == FoldLeft(LAMBDA acc, w : IF Len(w) >= c THEN acc + m[w[(Len(w) - c) + 1]] ELSE acc, 0, ws)
MaxLen(ws) == Max({0} \cup { Len(ws[i]) : i \in DOMAIN ws })
\* an assignment is a sequence over the sorted letters, -1 where unassigned;
\* Extend gives all injective extensions to the positions xs (a sequence)
Extend(m, xs, firsts) ==
  FoldLeft(LAMBDA S, x : UNION { LET used == { q[i] : i \in DOMAIN q }
                                 IN { [q EXCEPT ![x] = d] : d \in { d \in 0 .. 9 : d \notin used /\ (d # 0 \/ x \notin firsts) } } : q \in S }, {m}, xs)
\* words over positions 1 .. n; a state is an assignment with the carry appended
Columns(l, r, n) ==
  LET firsts == Firsts(l) \cup Firsts(r)
      top == Max({MaxLen(l), MaxLen(r)})
      diff(c, m) == ColSum(l, c, m) - ColSum(r, c, m)
      step(S, c) ==
        LET cols == ColLetters(l, c) \cup ColLetters(r, c)
        IN TLCEval(UNION { LET carry == p[n + 1]
                       new == SetToSeq({ x \in cols : p[x] = -1 })
                       good == { q \in Extend([p EXCEPT ![n + 1] = -1], new, firsts) : (diff(c, q) + carry) % 10 = 0 }
                   IN { [q EXCEPT ![n + 1] = (diff(c, q) + carry) \div 10] : q \in good } : p \in S })
  IN { SubSeq(z, 1, n) : z \in { y \in FoldLeft(step, { [x \in 1 .. n + 1 |-> IF x > n THEN 0 ELSE -1] }, [c \in 1 .. top |-> c]) : y[n + 1] = 0 } }
Solutions(l, r) ==
  LET xs == SetToSeq(Letters(l) \cup Letters(r))
      pos(x) == CHOOSE i \in DOMAIN xs : xs[i] = x
      tr(ws) == [i \in DOMAIN ws |-> [j \in DOMAIN ws[i] |-> pos(ws[i][j])]]
  IN { [x \in SetOf(xs) |-> m[pos(x)]] : m \in Columns(tr(l), tr(r), Len(xs)) }

\* by definition, for few letters
ValueOf(w, m) == FoldLeft(LAMBDA acc, x : acc * 10 + m[x], 0, w)
Total(ws, m) == FoldLeft(LAMBDA acc, w : acc + ValueOf(w, m), 0, ws)
ByDefinition(l, r) ==
  LET xs == Letters(l) \cup Letters(r)
  IN { m \in [xs -> 0 .. 9] : /\ \A x, y \in xs : x # y => m[x] # m[y]
                              /\ \A x \in Firsts(l) \cup Firsts(r) : m[x] # 0
                              /\ Total(l, m) = Total(r, m) }

\* an answer: numbers as digit sequences, one per word; the assignment they spell
Spelled(ws, ns) == { <<ws[i][j], ns[i][j]>> : <<i, j>> \in { p \in (DOMAIN ws) \X (1 .. 40) : p[2] \in DOMAIN ws[p[1]] } }
AlphaVerdict(e) ==
  LET l == e.in.l r == e.in.r
      fits(v) == /\ Len(v[1]) = Len(l) /\ Len(v[2]) = Len(r)
                 /\ \A i \in DOMAIN l : Len(v[1][i]) = Len(l[i])
                 /\ \A i \in DOMAIN r : Len(v[2][i]) = Len(r[i])
      graph(v) == Spelled(l, v[1]) \cup Spelled(r, v[2])
  IN Ret(e.out, LAMBDA L : LET sols == Solutions(l, r) IN FirstBad(<<
       Cl("shape", \A i \in DOMAIN L : fits(L[i])),
       Cl("not-a-solution", \A i \in DOMAIN L : \E m \in sols : graph(L[i]) = { <<x, m[x]>> : x \in DOMAIN m }),
       Cl("repetition", Cardinality({ graph(L[i]) : i \in DOMAIN L }) = Len(L)),
       Cl("number", Len(L) = Cardinality(sols))>>))
=============================================================================
