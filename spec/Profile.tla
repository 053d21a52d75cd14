------------------------------ MODULE Profile ------------------------------
(* Depth profiles.  Layer 1 is the fronting, layer N the backing medium.    *)
(* Thicknesses are integers; positions are counted in half units from the   *)
(* interface between rows 1 and 2 of the layer table.                       *)
EXTENDS Common, Randomization
CONSTANTS MaxN, Thick, NM, Shapes, Sim, Ends
VARIABLES lay,     \* sequence of [th, m, vf, ro]
          target,  \* number of layers aimed at (simulation)
          rev, solv, shape, contract, q
vars == <<lay, target, rev, solv, shape, contract, q>>
Pick(S) == IF Sim /\ S # {} THEN RandomSubset(1, S) ELSE S

Layer == [th : Thick, m : 1..NM, vf : {0, 1}, ro : {0, 1}]
Init == /\ lay = <<>> /\ target \in (IF Sim THEN 2..MaxN ELSE {2}) /\ rev = FALSE /\ solv = 0 /\ shape = "" /\ contract = 0 /\ q = <<>>
\* thickness and solvent of the end media do not matter: Ends limits the
\* choice in the exhaustive configuration
EndOk(l) == Sim \/ (l.th \in Ends /\ l.vf = 0)
Grow == /\ shape = "" /\ Len(lay) < (IF Sim THEN target ELSE MaxN) /\ (Len(lay) = 1 => EndOk(lay[1]))
        /\ \E l \in Pick(Layer) : lay' = Append(lay, l)
        /\ UNCHANGED <<target, rev, solv, shape, contract, q>>
Finish == /\ shape = "" /\ Len(lay) >= target /\ EndOk(lay[1]) /\ EndOk(lay[Len(lay)])
        /\ \E r \in Pick(BOOLEAN), s \in Pick(0..NM), sh \in Pick(Shapes), c \in Pick(0..2) :
             /\ rev' = r /\ solv' = s /\ shape' = sh /\ contract' = c
        /\ UNCHANGED <<lay, target, q>>
N == Len(lay)
\* the layer table: row i is layer Idx(i)
Idx(i) == IF rev THEN N + 1 - i ELSE i
Th(i) == IF i = 1 \/ i = N THEN 0 ELSE lay[Idx(i)].th
\* distance of the interface between rows k and k+1 from the first interface
RECURSIVE Cum(_)
Cum(k) == IF k <= 1 THEN 0 ELSE Cum(k - 1) + Th(k)
Total == Cum(N - 1)
\* the row that fills half-unit position p (p odd: never on an interface)
At(p) == CHOOSE i \in 1..N : /\ (i = 1 \/ 2 * Cum(i - 1) < p)
                             /\ (i = N \/ p < 2 * Cum(i))
\* interface that aligning to index a (Python convention) puts at zero
Interface(a) == IF a >= 0 THEN a + 1 ELSE N + a
Places == {p \in -3..(2 * Total + 3) : p % 2 # 0}
Ask == /\ shape # "" /\ Len(q) = 0
       /\ \E a \in Pick((1 - N)..(N - 2)), p \in Pick(Places) :
            q' = <<[align |-> a, shift |-> Cum(Interface(a)), at |-> p, row |-> At(p),
                    all |-> [i \in 1..N |-> Cum(i - 1)]]>>
       /\ UNCHANGED <<lay, target, rev, solv, shape, contract>>
Next == Grow \/ Finish \/ Ask

Ready == shape # ""
\* the interfaces are ordered and span the whole film
Ordered == Ready => \A k \in 1..(N-1) : Cum(k) <= Cum(k + 1) /\ Cum(N - 1) = Total
\* every position is filled by exactly one row
Filled == Ready => \A p \in Places : Cardinality({i \in 1..N : /\ (i = 1 \/ 2 * Cum(i - 1) < p)
                                                     /\ (i = N \/ p < 2 * Cum(i))}) = 1
\* aligning to the first / last interface
AlignEnds == Ready => /\ Cum(Interface(0)) = 0 /\ Cum(Interface(-1)) = Total
                      /\ \A a \in (1-N)..(-1) : Interface(a) \in 1..(N-1)
Emit == (Len(q) > 0) => PrintT(ToJson([lay |-> lay, rev |-> rev, solv |-> solv, shape |-> shape,
                                       contract |-> contract, q |-> q]))
=============================================================================
