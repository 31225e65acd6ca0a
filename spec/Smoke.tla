------------------------------- MODULE Smoke -------------------------------
EXTENDS Naturals, Json
VARIABLE x
Init == x = 0
Next == x' = (x + 1) % 2
Spec == Init /\ [][Next]_x
TypeOK == x \in 0 .. 1
=============================================================================
