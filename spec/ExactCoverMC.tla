---------------------------- MODULE ExactCoverMC ----------------------------
(* Algorithm X as a transition system over the column map: select a row of a
   smallest column (covering its columns), or backtrack (uncovering them in
   reverse).  The invariant says the map is always the one determined by the
   chosen rows, so backtracking restores it exactly; the covers visited are
   the covers by definition.                                                 *)
EXTENDS ExactCover
CONSTANTS T, K
VARIABLES fam, X, stack, found, dead
vars == <<fam, X, stack, found, dead>>
Target == 1 .. T
Rows == DOMAIN fam
\* stack entries: [row, cols, todo]: columns removed (in order) with their contents, rows of the column still to try
Cols(m) == DOMAIN m
Smallest(m) == CHOOSE c \in DOMAIN m : \A d \in DOMAIN m : Cardinality(m[c]) <= Cardinality(m[d])
Order(r) == SetToSeq(fam[r])
\* the code's cover loop for row r: <<map, removed columns>>
CoverRow(m, r) ==
  FoldLeft(LAMBDA acc, j :
      LET x == acc[1]
          y == [k \in DOMAIN x |-> IF k = j THEN x[k] ELSE { i \in x[k] : ~(i \in x[j] /\ k \in fam[i]) }]
      IN << [k \in DOMAIN y \ {j} |-> y[k]], Append(acc[2], y[j]) >>, <<m, <<>>>>, Order(r))
UncoverRow(m, r, cols) ==
  FoldLeft(LAMBDA acc, j :
      LET x == acc[1] col == acc[2][Len(acc[2])]
          y == [k \in DOMAIN x \cup {j} |-> IF k = j THEN col ELSE x[k]]
      IN << [k \in DOMAIN y |-> IF k = j THEN y[k] ELSE y[k] \cup { i \in col : k \in fam[i] }], SubSeq(acc[2], 1, Len(acc[2]) - 1) >>,
      <<m, cols>>, Reverse(Order(r)))[1]
Full == [c \in Target |-> { i \in Rows : c \in fam[i] }]
Init == /\ fam \in UNION { [1 .. k -> SUBSET Target] : k \in 0 .. K }
        /\ X = [c \in Target |-> { i \in DOMAIN fam : c \in fam[i] }]
        /\ stack = <<[row |-> 0, cols |-> <<>>, todo |-> IF T = 0 THEN {} ELSE X[Smallest(X)]]>>
        /\ found = <<>> /\ dead = FALSE
Top == stack[Len(stack)]
Chosen == { stack[i].row : i \in 2 .. Len(stack) }
Select == /\ ~dead /\ Top.todo # {}
          /\ LET r == CHOOSE i \in Top.todo : TRUE
                 cv == CoverRow(X, r)
             IN /\ X' = cv[1]
                /\ stack' = Append([stack EXCEPT ![Len(stack)].todo = @ \ {r}],
                                   [row |-> r, cols |-> cv[2], todo |-> IF Cols(cv[1]) = {} THEN {} ELSE cv[1][Smallest(cv[1])]])
                /\ found' = IF Cols(cv[1]) = {} THEN Append(found, Chosen \cup {r}) ELSE found
          /\ UNCHANGED <<fam, dead>>
Back == /\ ~dead /\ Top.todo = {}
        /\ IF Len(stack) = 1 THEN dead' = TRUE /\ UNCHANGED <<X, stack>>
           ELSE X' = UncoverRow(X, Top.row, Top.cols) /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ UNCHANGED dead
        /\ UNCHANGED <<fam, found>>
Next == Select \/ Back
Spec == Init /\ [][Next]_vars
CoveredBy == UNION { fam[i] : i \in Chosen }
Restored == X = [c \in Target \ CoveredBy |-> { i \in Rows : c \in fam[i] /\ fam[i] \cap CoveredBy = {} }]
Exact == dead => /\ SetOf(found) = Covers0(Target, fam)
                 /\ Len(found) = Cardinality(SetOf(found))
                 /\ Covers(Target, fam) = Covers0(Target, fam)
=============================================================================
