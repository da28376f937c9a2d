---------------------------- MODULE PartitionGen ----------------------------
(* Every sequence of Depth unions (in both styles) over Size elements, with a
   final observation of all representatives.                                 *)
EXTENDS Partition, Json
CONSTANTS Size, Depth
VARIABLES st, hist
vars == <<st, hist>>
Init == st = UInit([n |-> Size]) /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E x, y \in 1 .. Size, kind \in {"unite", "unite_elements"} :
             /\ BlockOf(st.p, x) # BlockOf(st.p, y)
             /\ st' = Unite(st, x, y)
             /\ hist' = Append(hist, <<kind, x, y>>)
Spec == Init /\ [][Next]_vars
IsPartition == UNION st.p = 1 .. Size /\ \A a, b \in st.p : a = b \/ a \cap b = {}
Emit == ((Len(hist) = Depth \/ Cardinality(st.p) = 1) /\ hist # <<>>) =>
          PrintT("GEN|" \o ToJson([op |-> "unionfind", in |-> [n |-> Size, ops |-> hist \o << <<"all">> >>]]))
=============================================================================
