----------------------------- MODULE PairingGen -----------------------------
(* All histories of Depth calls on one pairing heap: insert the next unused
   value with a key, decrease a live key, delete the minimum (all choices
   among ties are explored in the specification; the code makes one).        *)
EXTENDS Heaps, Json
CONSTANTS Depth, Keys
VARIABLES st, hist, used
vars == <<st, hist, used>>
Init == st = PInit(0) /\ hist = <<>> /\ used = 0
\* after a delete with ties the specification does not know which entry the
\* code removed, so the history only continues with calls valid for all
Next == /\ Len(hist) < Depth
        /\ \/ \E k \in Keys : /\ st' = PInsert(st, used + 1, k) /\ used' = used + 1
                              /\ hist' = Append(hist, <<"insert", k, used + 1>>)
           \/ \E x \in Live(st), k \in Keys :
                 /\ k <= st[x] /\ st' = [st EXCEPT ![x] = k] /\ used' = used
                 /\ hist' = Append(hist, <<"decrease_key", x, k>>)
           \/ /\ Cardinality(PMinKeys(st)) <= 1
              /\ st' = (IF Live(st) = {} THEN st ELSE PRemove(st, CHOOSE x \in PMinKeys(st) : TRUE))
              /\ used' = used /\ hist' = Append(hist, <<"delete_min">>)
Spec == Init /\ [][Next]_vars
Drain == [i \in 1 .. Cardinality(Live(st)) + 1 |-> <<"delete_min">>]
Emit == Len(hist) = Depth =>
          PrintT("GEN|" \o ToJson([op |-> "pairing", in |-> [ops |-> hist \o << <<"list">> >> \o Drain]]))
=============================================================================
