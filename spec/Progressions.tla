------------------------------ MODULE Progressions ------------------------------
(* N17: arithmetic progressions in an increasing sequence A of integers.       *)
EXTENDS Judge, SequencesExt
Members(A) == { A[i] : i \in DOMAIN A }
IsTriple(A, t) == Len(t) = 3 /\ t[1] < t[2] /\ t[2] - t[1] = t[3] - t[2] /\ \A i \in 1 .. 3 : t[i] \in Members(A)
HasTriple(A) == LET S == Members(A) IN \E i, j \in DOMAIN A : i < j /\ 2 * A[j] - A[i] \in S
\* length of the progression starting with x, x + d
RECURSIVE Run(_, _, _)
Run(S, x, d) == IF x \in S THEN 1 + Run(S, x + d, d) ELSE 0
LongestLength(A) == LET S == Members(A)
                        Lens == { Run(S, A[i], A[j] - A[i]) : <<i, j>> \in { p \in (DOMAIN A) \X (DOMAIN A) : p[1] < p[2] } }
                    IN CHOOSE m \in Lens : \A x \in Lens : x <= m
Progression(x, d, m) == [k \in 1 .. m |-> x + (k - 1) * d]
\* all progressions of greatest length, as <<first, difference>>
LongestOnes(A) == LET S == Members(A) m == LongestLength(A)
                  IN { <<A[p[1]], A[p[2]] - A[p[1]]>> : p \in { q \in (DOMAIN A) \X (DOMAIN A) : q[1] < q[2] /\ Run(S, A[q[1]], A[q[2]] - A[q[1]]) = m } }
InOrder(S) == SetToSortSeq(S, LAMBDA s, t : s[1] < t[1] \/ (s[1] = t[1] /\ s[2] < t[2]))
ProgressionsVerdict(e) ==
  LET A == e.in.a IN
  CASE e.op = "three" ->        \* <<>> stands for False
         Ret(e.out, LAMBDA v : IF v = <<>> THEN Cl("missed", ~HasTriple(A)) ELSE Cl("triple", IsTriple(A, v)))
    [] e.op = "three_indices" ->   \* positions from 0
         Ret(e.out, LAMBDA v : IF v = <<>> THEN Cl("missed", ~HasTriple(A))
                               ELSE Cl("indices", Len(v) = 3 /\ (\A i \in 1 .. 3 : v[i] \in 0 .. Len(A) - 1) /\ IsTriple(A, [i \in 1 .. 3 |-> A[v[i] + 1]])))
    [] e.op = "longest" ->
         Is(e.out, LET m == LongestLength(A) s == InOrder(LongestOnes(A)) IN [i \in DOMAIN s |-> Progression(s[i][1], s[i][2], m)])
=============================================================================
