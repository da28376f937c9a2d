------------------------------ MODULE ToursMC ------------------------------
(* Local search by two-opt moves as a transition system: from every tour every
   improving move strictly shortens it, so the search ends, and it ends only
   in locally optimal tours; the layered optimum is the minimum over all
   tours; insertion keeps a closed tour.                                     *)
EXTENDS Tours
CONSTANTS N, W
VARIABLES D, p, steps
vars == <<D, p, steps>>
Mats == { [i \in 1 .. N |-> [j \in 1 .. N |-> IF i = j THEN 0 ELSE m[IF i < j THEN <<i, j>> ELSE <<j, i>>]]] :
          m \in [{ x \in (1 .. N) \X (1 .. N) : x[1] < x[2] } -> 0 .. W] }
Tours == { q \in [1 .. N -> 1 .. N] : q[1] = 1 /\ Perm(q, N) }
Init == D \in Mats /\ p \in {[i \in 1 .. N |-> i]} /\ steps = 0
Move == \E i \in 1 .. N : \E j \in i + 1 .. N :
          /\ Gain(p, D, i, j) > 0
          /\ p' = Rev(p, i + 1, j) /\ steps' = steps + 1 /\ D' = D
Next == Move
Spec == Init /\ [][Next]_vars
StillTour == Perm(p, N)
GainIsExact == \A i \in 1 .. N : \A j \in i + 1 .. N : Length(Rev(p, i + 1, j), D) = Length(p, D) - Gain(p, D, i, j)
Terminates == Length(p, D) + steps <= Length([i \in 1 .. N |-> i], D)
OptIsMin == steps > 0 \/ TourOpt(N, D) = Min({ Length(q, D) : q \in Tours })
=============================================================================
