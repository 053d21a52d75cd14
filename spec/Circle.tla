------------------------------- MODULE Circle -------------------------------
(* The separation of two angles on a circle of P units, exactly.            *)
EXTENDS Common
CONSTANTS P, Angles, Turns
VARIABLES a, b, t, u
Init == a \in Angles /\ b \in Angles /\ t \in Turns /\ u \in Turns
Next == UNCHANGED <<a, b, t, u>>
\* the smallest of all separations over whole turns, straight from the definition
Span == 0..(2 * (Cardinality(Turns) + 2) + 2 * (Cardinality(Angles) \div P + 2))
Sep(x, y) == LET S == {Abs(x - y + (k - Cardinality(Span) \div 2) * P) : k \in Span} IN CHOOSE m \in S : \A n \in S : m <= n
HalfTurn == Sep(a, b) >= 0 /\ 2 * Sep(a, b) <= P
Symmetric == Sep(a, b) = Sep(b, a)
Whole == Sep(a + t * P, b + u * P) = Sep(a, b)
Zero == (Sep(a, b) = 0) = ((a - b) % P = 0)
Emit == PrintT(ToJson([a |-> a + t * P, b |-> b + u * P, p |-> P, d |-> Sep(a, b)]))
=============================================================================
