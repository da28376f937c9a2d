----------------------------- MODULE StrikeGen -----------------------------
EXTENDS Strike, Json
CONSTANTS Max, Depth, Impls
VARIABLES st, hist
vars == <<st, hist>>
Init == \E n \in 0 .. Max : st = SInit([n |-> n]) /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E p \in 1 .. st.n + 1 : st' = Strike(st, p) /\ hist' = Append(hist, <<"mark", p>>)
Spec == Init /\ [][Next]_vars
\* prefix counts are monotone and telescope to the entries
Telescopes == \A m \in 1 .. st.n : Prefix(st, m) - Prefix(st, m - 1) = (IF m \in st.s THEN 1 ELSE 0)
Emit == Len(hist) = Depth =>
          \A im \in Impls :
            PrintT("GEN|" \o ToJson([op |-> im, in |-> [n |-> st.n, ops |-> hist \o << <<"sums">>, <<"entries">>, <<"sum", 0>> >>]]))
=============================================================================
