--------------------------------- MODULE PellMC ---------------------------------
(* The class search as a transition system: y runs through the box, solutions are
   collected and moved to positive representatives, then every class is followed
   by multiplication with the unit up to a bound.  At the end the representatives
   are the least positive solutions of the classes as defined, and the walk has
   met every positive solution once.                                           *)
EXTENDS Pell
CONSTANTS DS, NMAX, BOUND
VARIABLES D, N, y, found, todo, seen, phase
vars == <<D, N, y, found, todo, seen, phase>>
rt(d) == ZOf(Root(d))
eps == Unit(ZOf(D), rt(D))
u == ZVal(eps[1])
Init == D \in DS /\ N \in (-NMAX .. NMAX) \ {0} /\ y = 0 /\ found = {} /\ todo = {} /\ seen = {} /\ phase = "scan"
Scan == /\ phase = "scan" /\ UNCHANGED <<D, N, seen>>
        /\ IF y <= BoxY(D, N, u)
           THEN y' = y + 1 /\ found' = found \cup UNION { Lifted(ZOf(D), ZOf(N), eps, s) : s \in SolAt(D, N, y) } /\ UNCHANGED <<todo, phase>>
           ELSE phase' = "walk" /\ found' = LeastOfClasses(ZOf(D), ZOf(N), found) /\ todo' = found' /\ UNCHANGED y
Walk == /\ phase = "walk" /\ UNCHANGED <<D, N, y, found>>
        /\ IF todo = {} THEN phase' = "done" /\ UNCHANGED <<todo, seen>>
           ELSE LET s == CHOOSE t \in todo : TRUE IN
                IF ZLt(ZOf(BOUND), s[1]) \/ ZLt(ZOf(BOUND), s[2]) THEN todo' = todo \ {s} /\ UNCHANGED <<seen, phase>>
                ELSE /\ Assert(s \notin seen, "a solution is met twice")
                     /\ seen' = seen \cup {s} /\ todo' = (todo \ {s}) \cup {Times(ZOf(D), s, eps)} /\ UNCHANGED phase
Next == Scan \/ Walk
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* all positive solutions with y up to a bound
Upto(Y) == UNION { { s \in SolAt(D, N, z) : s[1] > 0 } : z \in 1 .. Y }
AsZ(S) == { <<ZOf(s[1]), ZOf(s[2])>> : s \in S }
Sound == \A s \in found \cup seen : Norm(ZOf(D), s) = ZOf(N) /\ Positive(s)
\* a positive solution is least in its class iff dividing by the unit leaves the positive ones
Definition == { s \in AsZ(Upto(u * (Root(IF N < 0 THEN -N ELSE N) + 1))) :
                  ~Positive(Times(ZOf(D), s, <<eps[1], ZNeg(eps[2])>>)) }
Representatives == phase = "walk" /\ seen = {} =>
  /\ found = Definition
  /\ LeastOfClasses(ZOf(D), ZOf(N), Definition) = Definition
Everything == phase = "done" => seen = { s \in AsZ(Upto(BOUND)) : ZLe(s[1], ZOf(BOUND)) }
\* for N^2 < D the primitive positive solutions are convergents of sqrt D
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
SmallNorm == phase = "scan" /\ y = 0 /\ N * N < D =>
  LET c == SqrtConvs(ZOf(D), rt(D), 12) good == { c[i] : i \in { j \in 1 .. 12 : Norm(ZOf(D), c[j]) = ZOf(N) } }
  IN { s \in AsZ({ t \in Upto(60) : Gcd(t[1], t[2]) = 1 }) : ZLe(s[2], c[12][2]) } = { s \in good : ZLe(s[2], ZOf(60)) }
Terminates == <>(phase = "done")
=============================================================================
