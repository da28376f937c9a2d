----------------------------- MODULE CountingMC -----------------------------
(* The recurrences of Counting against direct enumeration of the objects.    *)
EXTENDS Counting, FiniteSetsExt
CONSTANTS N, M
VARIABLES what, x, y
Init == /\ what \in {"bell", "stirling", "binomial", "necklace", "necklacew", "partition", "bipartition", "tiling"}
        /\ x \in 0 .. N /\ y \in 0 .. M
Next == UNCHANGED <<what, x, y>>
Spec == Init /\ [][Next]_<<what, x, y>>
Card(S) == NOf(Cardinality(S))
\* equivalence relations as canonical (restricted growth) labellings
RGS(n) == { f \in [1 .. n -> 1 .. n] : \A i \in 1 .. n : f[i] = 1 \/ \E j \in 1 .. i - 1 : f[j] = f[i] - 1 }
Rgs == TLCEval([n \in 0 .. N |-> RGS(n)])
Blocks(f) == Cardinality({ f[i] : i \in DOMAIN f })
Rot(w, t) == [i \in DOMAIN w |-> w[(((i - 1) + t) % Len(w)) + 1]]
Orbits(W) == { { Rot(w, t) : t \in 0 .. Len(w) - 1 } : w \in W }
NonInc(p) == \A i \in 1 .. Len(p) - 1 : p[i] >= p[i + 1]
Partitions(n) == UNION { { t \in [1 .. m -> 1 .. n] : NonInc(t) /\ Sum(t) = n } : m \in 0 .. n }
\* bipartitions: multiplicity functions on non-zero vectors
Vectors(m, n) == ((0 .. m) \X (0 .. n)) \ {<<0, 0>>}
RECURSIVE CountVecs(_, _, _)
\* partitions of vector v using vectors that are lexicographically <= u
VLe(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
CountVecs(m, n, u) == IF m = 0 /\ n = 0 THEN 1
  ELSE FoldLeft(LAMBDA acc, w : acc + CountVecs(m - w[1], n - w[2], w), 0,
                SetToSeq({ w \in Vectors(m, n) : VLe(w, u) }))
\* tilings as exact covers: sets of pieces that partition the board
Board(r, c) == (0 .. r - 1) \X (0 .. c - 1)
Pieces(r, c, shapes) == { p \in { { <<b[1] + shapes[i][k][1], b[2] + shapes[i][k][2]>> : k \in DOMAIN shapes[i] } : b \in Board(r, c), i \in DOMAIN shapes } : p \subseteq Board(r, c) }
RECURSIVE Covers(_, _)
\* cover the cell with fewest choices last: any fixed uncovered cell works
Covers(unc, ps) == IF unc = {} THEN 1
  ELSE LET c == CHOOSE z \in unc : TRUE
       IN FoldLeft(LAMBDA acc, p : acc + Covers(unc \ p, ps), 0, SetToSeq({ p \in ps : c \in p /\ p \subseteq unc }))
Agree ==
  CASE what = "bell" -> y > 0 \/ Bell(x) = Card(Rgs[x])
    [] what = "stirling" -> y > x \/ Stirling2(x, y) = Card({ f \in Rgs[x] : Blocks(f) = y })
    [] what = "binomial" -> y > x \/ (BinomBig(x, y) = Card({ s \in SUBSET (1 .. x) : Cardinality(s) = y }) /\ BinomN(x, y) = BinomBig(x, y))
    [] what = "necklace" -> x = 0 \/ y = 0 \/ y > 3 \/ Necklaces(x, y) = Card(Orbits([1 .. x -> 1 .. y]))
    [] what = "necklacew" -> x = 0 \/ x + y = 0 \/ y = 0 \/ x + y > 6 \/
         NecklacesW(x + y, <<x, y>>) = Card(Orbits({ w \in [1 .. x + y -> 1 .. 2] : Cardinality({ i \in 1 .. x + y : w[i] = 1 }) = x }))
    [] what = "partition" -> y > 0 \/ (PNum(x) = Card(Partitions(x)) /\ RPower(1, x) = Z(1, PNum(x)))
    [] what = "bipartition" -> x > 3 \/ y > 3 \/ Bipart(x, y) = NOf(CountVecs(x, y, <<x, y>>))
    [] what = "tiling" -> x = 0 \/ y = 0 \/ x > 4 \/ y > 5 \/ (Tilings(x, y, Domino) = NOf(Covers(Board(x, y), Pieces(x, y, Domino)))
                              /\ TilingsWide(x, y, Domino) = Tilings(x, y, Domino) /\ TilingsWide(x, y, Triomino) = Tilings(x, y, Triomino)
                              /\ Tilings(x, y, Triomino) = NOf(Covers(Board(x, y), Pieces(x, y, Triomino))))
=============================================================================
