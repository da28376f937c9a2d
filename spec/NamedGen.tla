------------------------------ MODULE NamedGen ------------------------------
(* Every sequence of named unions over Size elements; the new name is one of
   the two old names or a name no set carries.                               *)
EXTENDS Partition, Json
CONSTANTS Size, Depth
VARIABLES st, hist
vars == <<st, hist>>
Names == { st.rep[x] : x \in 1 .. Size }
Init == st = NInit([n |-> Size]) /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E u, v \in Names, w \in 1 .. Size + 1 :
             /\ u # v /\ (w \in {u, v} \/ w \notin Names)
             /\ st' = NStep(st, <<"union", u, v, w>>, [k |-> "ret", v |-> 0]).st
             /\ hist' = Append(hist, <<"union", u, v, w>>)
Spec == Init /\ [][Next]_vars
OneNamePerBlock == \A x, y \in 1 .. Size : (st.rep[x] = st.rep[y]) <=> (BlockOf(st.p, x) = BlockOf(st.p, y))
Emit == ((Len(hist) = Depth \/ Cardinality(st.p) = 1) /\ hist # <<>>) =>
          PrintT("GEN|" \o ToJson([op |-> "named", in |-> [n |-> Size, ops |-> hist \o << <<"all">> >>]]))
=============================================================================
