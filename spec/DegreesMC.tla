----------------------------- MODULE DegreesMC -----------------------------
(* Havel-Hakimi as a transition system over every sequence with entries in
   Lo..Hi: whatever largest entries are decremented, the verdict reached is
   the definition's, every step preserves being graphic, and the Erdos-Gallai
   conditions agree.                                                         *)
EXTENDS Degrees
CONSTANTS MaxLen, Hi
Lo == -1
VARIABLES s0, t, verdict
vars == <<s0, t, verdict>>
Init == /\ \E n \in 0 .. MaxLen : s0 \in [1 .. n -> Lo .. Hi]
        /\ t = SortDesc(s0) /\ verdict = "open"
DropHead(q) == SubSeq(q, 2, Len(q))
Next == /\ verdict = "open"
        /\ s0' = s0
        /\ \/ (\E i \in 1 .. Len(t) : t[i] < 0 \/ t[i] >= Len(t)) /\ verdict' = "no" /\ t' = t
           \/ (\A i \in 1 .. Len(t) : t[i] = 0) /\ verdict' = "yes" /\ t' = t
           \/ /\ \A i \in 1 .. Len(t) : t[i] >= 0 /\ t[i] < Len(t)
              /\ \E i \in 1 .. Len(t) : t[i] > 0
              /\ LET r == DropHead(t) IN t' = SortDesc([i \in 1 .. Len(r) |-> IF i <= t[1] THEN r[i] - 1 ELSE r[i]])
              /\ verdict' = verdict
Spec == Init /\ [][Next]_vars
Right == verdict # "open" => (verdict = "yes") = ByDefinition(s0)
Preserved == ByDefinition(t) = ByDefinition(s0)
Inequalities == ErdosGallai(t) = ByDefinition(t)
=============================================================================
