---------------------------- MODULE AlphameticMC ----------------------------
EXTENDS Alphametic
CONSTANTS Abc, L1, L2, L3
VARIABLES a, b, c
Word(n) == UNION { [1 .. k -> 1 .. Abc] : k \in 1 .. n }
Init == a \in Word(L1) /\ b \in Word(L2) /\ c \in Word(L3)
Next == UNCHANGED <<a, b, c>>
Spec == Init /\ [][Next]_<<a, b, c>>
Same == /\ Solutions(<<a, b>>, <<c>>) = ByDefinition(<<a, b>>, <<c>>)
        /\ Solutions(<<c>>, <<a>>) = ByDefinition(<<c>>, <<a>>)
        /\ Solutions(<<a>>, <<b, c, a>>) = ByDefinition(<<a>>, <<b, c, a>>)
=============================================================================
