------------------------------ MODULE MemoGen ------------------------------
EXTENDS Memo, Json
CONSTANTS Depth
VARIABLES st, hist
vars == <<st, hist>>
Args == { <<>>, <<1>>, <<2>>, <<1, 2>>, <<2, 1>>, <<7>>, <<8>>, <<-1>>, <<-2>> }
Init == st = MInit(0) /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E f \in 1 .. 2, a \in Args : st' = Call(st, f, a) /\ hist' = Append(hist, <<"call", f, a>>)
Spec == Init /\ [][Next]_vars
\* a function runs at most once per remembered tuple, plus once per failing call
RunsBound == \A f \in 1 .. 3 : st[f].runs = Cardinality(st[f].seen) + Cardinality({i \in 1 .. Len(hist) : hist[i][2] = f /\ Has(hist[i][3], 7)})
Emit == Len(hist) = Depth => PrintT("GEN|" \o ToJson([op |-> "memo", in |-> [ops |-> hist]]))
=============================================================================
