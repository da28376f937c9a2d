---------------------------- MODULE GenerationMC ----------------------------
(* The generation procedures as transition systems over every small multiset:
   Algorithm L and the r-variation procedure visit the arrangements in
   lexicographic order, each once, and stop after the last; Algorithm H and P
   style partition stepping is covered by the counting laws.                *)
EXTENDS Generation
CONSTANTS MaxLen, MaxVal, MaxN
VARIABLES kind, s, r, a, prev, cnt, done
vars == <<kind, s, r, a, prev, cnt, done>>
Sorted(n) == { t \in [1 .. n -> 1 .. MaxVal] : \A i \in 1 .. n - 1 : t[i] <= t[i + 1] }
Init == /\ kind \in {"L", "R"} /\ s \in UNION { Sorted(n) : n \in 0 .. MaxLen }
        /\ r \in 0 .. Len(s) /\ (kind = "L" => r = Len(s)) /\ (kind = "R" => r >= 1)
        /\ a = s /\ prev = <<-1>> /\ cnt = 1 /\ done = FALSE
Step(b) == IF b = <<>> THEN done' = TRUE /\ UNCHANGED <<a, prev, cnt>>
           ELSE a' = b /\ prev' = SubSeq(a, 1, r) /\ cnt' = cnt + 1 /\ UNCHANGED done
Next == /\ ~done /\ UNCHANGED <<kind, s, r>>
        /\ Step(IF kind = "L" THEN AlgL(a) ELSE AlgR(a, r))
Spec == Init /\ [][Next]_vars
InOrder == (cnt = 1 \/ LexLt(prev, SubSeq(a, 1, r))) /\ IsArrangement(a, s)
Complete == done => cnt = NVariations(s, r)
\* the skipped arrangements: nothing lies strictly between consecutive visits
NoGap == (kind = "L" /\ prev # <<-1>> /\ Len(s) <= 4) =>
           ~\E t \in [1 .. Len(s) -> Range1(s)] : IsArrangement(t, s) /\ LexLt(prev, t) /\ LexLt(t, a)
\* counting laws of partitions: direct enumeration of small cases
Parts(n) == UNION { { t \in [1 .. m -> 1 .. n] : NonIncreasing(t) /\ FoldLeft(LAMBDA x, y : x + y, 0, t) = n } : m \in 0 .. n }
ASSUME \A n \in 0 .. MaxN : \A k \in 0 .. n + 1 : \A d \in BOOLEAN : \A ps \in SUBSET (1 .. n) :
  NPartitions(n, ps, k, d) = Cardinality({ t \in Parts(n) : Range1(t) \subseteq ps /\ (k = 0 \/ Len(t) = k) /\ (d => Cardinality(Range1(t)) = Len(t)) })
ASSUME \A n \in 0 .. 8 : \A k \in 0 .. 8 : Binom(n, k) = Cardinality({ x \in SUBSET (1 .. n) : Cardinality(x) = k })
=============================================================================
