------------------------------- MODULE BigMC -------------------------------
(* The arithmetic of Big against the built-in integers where those reach, and
   against algebraic laws beyond.                                            *)
EXTENDS Big
CONSTANTS Top
VARIABLES x, y, phase
vars == <<x, y, phase>>
Small == (0 .. Top) \cup {998, 999, 1000, 1001, 1999, 2000, 9999, 10000, 30030, 31622, 46340}
Wide == { <<999, 999>>, <<0, 1>>, <<1, 0, 1>>, <<0, 0, 0, 1>>, <<999, 999, 999, 999, 999>>, <<1, 0, 0, 0, 999, 500>>,
          <<123, 456, 789, 12, 345>>, <<0, 500>>, <<1, 500>>, <<999, 499>>, <<7>>, <<999, 0, 999, 0, 999, 0, 1>>, <<0, 0, 999>>,
          <<1, 1>>, <<998, 999, 999>>, <<0, 999, 999, 1>> }
Init == phase = "small" /\ x = 0 /\ y = 0
Next == \/ phase = "small" /\ x = 0 /\ y = 0 /\ x' \in Small /\ y' \in Small /\ phase' = "small2"
        \/ phase = "small" /\ x' \in Wide /\ y' \in Wide /\ phase' = "wide"
Spec == Init /\ [][Next]_vars
SmallOK == phase = "small2" =>
  LET a == NOf(x) b == NOf(y)
  IN /\ NVal(a) = x
     /\ NVal(NAdd(a, b)) = x + y /\ NVal(NMul(a, b)) = x * y
     /\ NCmp(a, b) = (IF x < y THEN -1 ELSE IF x = y THEN 0 ELSE 1)
     /\ x >= y => NVal(NSub(a, b)) = x - y
     /\ y > 0 => NVal(NDiv(a, b)) = x \div y /\ NVal(NMod(a, b)) = x % y
     /\ y > 0 => NDivSmall(a, y) = <<NOf(x \div y), x % y>> /\ NModSmall(a, y) = x % y
     /\ ZVal(ZSub(ZOf(x), ZOf(y))) = x - y /\ ZVal(ZMul(ZOf(-x), ZOf(y))) = -(x * y)
     /\ y > 0 => ZVal(ZDivMod(ZOf(-x), b)[1]) = (-x) \div y /\ NVal(ZMod(ZOf(-x), b)) = (-x) % y
WideOK == phase = "wide" =>
  LET qr == NDivMod(x, y)
      p == NMul(x, y)
  IN /\ NAdd(NMul(qr[1], y), qr[2]) = x /\ NLt(qr[2], y)
     /\ p = NMul(y, x) /\ NDivMod(p, y) = <<x, <<>>>>
     /\ NSub(NAdd(x, y), y) = x
     /\ NMul(NAdd(x, y), NAdd(x, y)) = NAdd(NAdd(NMul(x, x), NMul(y, y)), NScale(p, 2))
     /\ NDivMod(NAdd(p, qr[2]), y) = <<x, qr[2]>>
     /\ NMod(NPow(x, 5), y) = NPowMod(x, <<5>>, y)
     /\ LET g == NGcd(x, y) IN NMod(x, g) = <<>> /\ NMod(y, g) = <<>>
=============================================================================
