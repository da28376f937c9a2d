----------------------------- MODULE ProgressionsMC -----------------------------
(* Erickson's two algorithms as transition systems over every increasing
   sequence of numbers up to X: for each middle term two pointers move outwards;
   the table L[i, j] of progressions starting at positions i < j is filled from
   the right.  Invariants: nothing to the skipped side can close a progression,
   and the table always holds true lengths.                                    *)
EXTENDS Progressions
CONSTANTS X
VARIABLES A, task, i, j, k, L, res
vars == <<A, task, i, j, k, L, res>>
Sorted(S) == SetToSortSeq(S, <)
n == Len(A)
Init == /\ \E S \in SUBSET (1 .. X) : Cardinality(S) >= 2 /\ A = Sorted(S)
        /\ task \in {"three", "longest"}
        /\ j = (IF task = "three" THEN 1 ELSE Len(A) - 1) /\ i = j - 1 /\ k = j + 1
        /\ L = (IF task = "three" THEN <<>> ELSE [p \in { <<x, Len(A)>> : x \in 1 .. Len(A) - 1 } |-> 2]) /\ res = "run"
Sum == A[i] + A[k]
Three == /\ task = "three" /\ UNCHANGED <<A, task, L>>
         /\ IF j > n THEN res' = "none" /\ UNCHANGED <<i, j, k>>
            ELSE IF i < 1 \/ k > n THEN j' = j + 1 /\ i' = j /\ k' = j + 2 /\ UNCHANGED res
            ELSE IF Sum < 2 * A[j] THEN k' = k + 1 /\ UNCHANGED <<i, j, res>>
            ELSE IF Sum > 2 * A[j] THEN i' = i - 1 /\ UNCHANGED <<j, k, res>>
            ELSE res' = "found" /\ UNCHANGED <<i, j, k>>
With(f, p, v) == [q \in DOMAIN f \cup {p} |-> IF q = p THEN v ELSE f[q]]
Longest == /\ task = "longest" /\ UNCHANGED <<A, task>>
           /\ IF j < 1 THEN res' = "done" /\ UNCHANGED <<i, j, k, L>>
              ELSE IF i < 1 THEN j' = j - 1 /\ i' = j - 2 /\ k' = j /\ UNCHANGED <<L, res>>
              ELSE IF k > n THEN L' = With(L, <<i, j>>, 2) /\ i' = i - 1 /\ UNCHANGED <<j, k, res>>
              ELSE IF Sum < 2 * A[j] THEN k' = k + 1 /\ UNCHANGED <<i, j, L, res>>
              ELSE IF Sum > 2 * A[j] THEN L' = With(L, <<i, j>>, 2) /\ i' = i - 1 /\ UNCHANGED <<j, k, res>>
              ELSE L' = With(L, <<i, j>>, L[<<j, k>>] + 1) /\ i' = i - 1 /\ k' = k + 1 /\ UNCHANGED <<j, res>>
Next == res = "run" /\ (Three \/ Longest)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* no progression with this middle uses a position already passed
Passed == task = "three" /\ res = "run" /\ j <= n =>
  \A x \in 1 .. j - 1, z \in j + 1 .. n : (x > i \/ z < k) /\ x < j /\ z > j => A[x] + A[z] # 2 * A[j]
ThreeRight == task = "three" => /\ res = "found" => IsTriple(A, <<A[i], A[j], A[k]>>)
                                /\ res = "none" => ~HasTriple(A)
TableRight == task = "longest" => \A p \in DOMAIN L : L[p] = Run(Members(A), A[p[1]], A[p[2]] - A[p[1]])
Max2(S) == CHOOSE x \in S : \A y \in S : y <= x
LongestRight == task = "longest" /\ res = "done" =>
  LET m == Max2({ L[p] : p \in DOMAIN L }) IN
  /\ DOMAIN L = { p \in (1 .. n) \X (1 .. n) : p[1] < p[2] }
  /\ m = LongestLength(A)
  /\ { <<A[p[1]], A[p[2]] - A[p[1]]>> : p \in { q \in DOMAIN L : L[q] = m } } = LongestOnes(A)
Terminates == <>(res # "run")
=============================================================================
