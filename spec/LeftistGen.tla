----------------------------- MODULE LeftistGen -----------------------------
(* All histories of Depth calls over two leftist heaps with values in Vals,
   after two initial builds; each is printed for replay in the code.         *)
EXTENDS Heaps, Json
CONSTANTS Depth, Vals
VARIABLES st, hist
vars == <<st, hist>>
Builds == { <<>>, <<2>>, <<2, 1>>, <<1, 1, 2>> }
Init == \E a \in Builds, b \in {<<>>, <<1, 2>>} :
          /\ st = LNew(LNew(LInit(0), 1, a), 2, b)
          /\ hist = << <<"new", 1, a>>, <<"new", 2, b>> >>
Next == /\ Len(hist) < Depth + 2
        /\ \/ \E i \in 1 .. 2, x \in Vals : st' = LInsert(st, i, x) /\ hist' = Append(hist, <<"insert", i, x>>)
           \/ \E i \in 1 .. 2 : st' = LDelete(st, i) /\ hist' = Append(hist, <<"delete_min", i>>)
           \/ \E i \in 1 .. 2 : \* the heap merged away is rebuilt before reuse
                 /\ Len(hist) < Depth + 1
                 /\ st' = LMerge(st, i, 3 - i)
                 /\ hist' = hist \o << <<"merge", i, 3 - i>>, <<"new", 3 - i, <<>> >> >>
Spec == Init /\ [][Next]_vars
Total == LET s == hist IN Len(st[1]) + Len(st[2])
\* design checks: sizes are conserved and order is kept
SortedInv == \A i \in 1 .. 2 : \A a, b \in 1 .. Len(st[i]) : a < b => st[i][a] <= st[i][b]
Emit == Len(hist) = Depth + 2 =>
          PrintT("GEN|" \o ToJson([op |-> "leftist", in |-> [ops |-> hist \o << <<"drain", 1>>, <<"drain", 2>> >>]]))
=============================================================================
