------------------------------ MODULE RITable ------------------------------
(* Materials given by a table of refractive index and extinction against    *)
(* wavelength (integers; exact rational interpolation).                     *)
EXTENDS Common
CONSTANTS MaxNodes, Lam, Vals, MaxQueries, Sim, Forms
VARIABLES form,   \* how the table is supplied
          ord,    \* the order in which its rows are listed
          tab,    \* sequence of [l, n, k], l strictly increasing
          dflt,   \* the material's default wavelength
          dflt0,  \* the default it was made with
          qs      \* queries so far with the expected answers
vars == <<form, ord, tab, dflt, dflt0, qs>>
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
\* Forms: "arrays", "lists", "matrix", "file2", "file3", "const"

\* linear interpolation, the end values outside: <<numerator, denominator>>
Interp(x, f) ==
  LET m == Len(tab)
  IN IF x <= tab[1].l THEN <<tab[1][f], 1>>
     ELSE IF x >= tab[m].l THEN <<tab[m][f], 1>>
     ELSE LET i == CHOOSE j \in 1..(m-1) : tab[j].l <= x /\ x < tab[j+1].l
              a == tab[i] b == tab[i+1]
          IN <<a[f] * (b.l - a.l) + (b[f] - a[f]) * (x - a.l), b.l - a.l>>

\* a constant material and a two-column file have their own extinction
Answer(x) == [n |-> IF form = "const" THEN <<tab[1].n, 1>> ELSE Interp(x, "n"),
              k |-> IF form = "const" THEN <<tab[1].k, 1>>
                    ELSE IF form = "file2" THEN <<0, 1>> ELSE Interp(x, "k")]

Init == /\ form \in Forms /\ ord \in (IF form = "const" THEN {"up"} ELSE {"up", "down", "any"}) /\ tab = <<>> /\ dflt \in Lam /\ dflt0 = dflt /\ qs = <<>>

AddNode == /\ Len(qs) = 0 /\ Len(tab) < (IF form = "const" THEN 1 ELSE MaxNodes)
           /\ \E l \in Pick({x \in Lam : Len(tab) = 0 \/ x > tab[Len(tab)].l}),
                 n \in Pick(Vals), k \in Pick(Vals) :
                tab' = Append(tab, [l |-> l, n |-> n, k |-> k])
           /\ UNCHANGED <<form, ord, dflt, dflt0, qs>>
CanAdd == {x \in Lam : Len(tab) = 0 \/ x > tab[Len(tab)].l} # {}
Ready == Len(tab) >= 1

Ask == /\ Ready /\ Len(qs) < MaxQueries
       /\ \E x \in Pick(Lam) : qs' = Append(qs, [kind |-> "one", at |-> <<x>>, ans |-> <<Answer(x)>>])
       /\ UNCHANGED <<form, ord, tab, dflt, dflt0>>
AskDefault == /\ Ready /\ Len(qs) < MaxQueries
       /\ qs' = Append(qs, [kind |-> "default", at |-> <<dflt>>, ans |-> <<Answer(dflt)>>])
       /\ UNCHANGED <<form, ord, tab, dflt, dflt0>>
AskMany == /\ Ready /\ Len(qs) < MaxQueries
       /\ \E x, y, z \in Pick(Lam) :
            qs' = Append(qs, [kind |-> "many", at |-> <<x, y, z>>,
                              ans |-> <<Answer(x), Answer(y), Answer(z)>>])
       /\ UNCHANGED <<form, ord, tab, dflt, dflt0>>
ChangeDefault == /\ Ready /\ Len(qs) < MaxQueries /\ Len(qs) > 0
       /\ \E x \in Pick(Lam) : dflt' = x /\
            qs' = Append(qs, [kind |-> "setdefault", at |-> <<x>>, ans |-> <<Answer(x)>>])
       /\ UNCHANGED <<form, ord, tab, dflt0>>
Next == (CanAdd /\ AddNode) \/ Ask \/ AskDefault \/ AskMany \/ ChangeDefault

\* Design properties
Lo(f) == CHOOSE v \in {tab[i][f] : i \in 1..Len(tab)} : \A i \in 1..Len(tab) : v <= tab[i][f]
Hi(f) == CHOOSE v \in {tab[i][f] : i \in 1..Len(tab)} : \A i \in 1..Len(tab) : v >= tab[i][f]
AtNodes == (Len(tab) > 0) => \A i \in 1..Len(tab) : \A f \in {"n", "k"} :
              LET r == Interp(tab[i].l, f) IN r[1] = tab[i][f] * r[2]
Between == (Len(tab) > 0) => \A x \in Lam : \A f \in {"n", "k"} :
              LET r == Interp(x, f) IN Lo(f) * r[2] <= r[1] /\ r[1] <= Hi(f) * r[2]
Clamped == (Len(tab) > 0) => \A x \in Lam :
              /\ x < tab[1].l => Interp(x, "n") = <<tab[1].n, 1>>
              /\ x > tab[Len(tab)].l => Interp(x, "n") = <<tab[Len(tab)].n, 1>>
Local == \A i \in 1..(Len(tab) - 1) : \A x \in tab[i].l..tab[i+1].l : \A f \in {"n", "k"} :
              LET r == Interp(x, f) a == tab[i][f] b == tab[i+1][f]
              IN r[2] * Min2(a, b) <= r[1] /\ r[1] <= r[2] * Max2(a, b)

Emit == (Len(qs) = MaxQueries) => PrintT(ToJson([form |-> form, ord |-> ord, tab |-> tab,
           dflt |-> dflt0, qs |-> qs]))
=============================================================================
