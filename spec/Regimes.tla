------------------------------ MODULE Regimes ------------------------------
(* Regimes of a reflection measurement: which kinds of media, thicknesses   *)
(* and angles meet, by which route psi and delta are asked for, and what is *)
(* known about them without any numerics.                                   *)
EXTENDS Common, Randomization
CONSTANTS MaxLayers, Sim
VARIABLES target, front, lay, back, angle, reflect, offset, route, done
vars == <<target, front, lay, back, angle, reflect, offset, route, done>>
Pick(S) == IF Sim /\ S # {} THEN RandomSubset(1, S) ELSE S

Fronts == {"void", "low", "dense", "absorbing"}
Media == {"void", "low", "dense", "lossy", "metal"}
Thick == {"zero", "thin", "mid", "thick", "opaque"}
Backs == {"void", "low", "dense", "lossy", "metal"}
Angles == {"tiny", "mid", "steep", "grazing", "critical"}
Routes == {"table", "model", "objective"}
Offsets == {"none", "pos", "neg", "turns"}

\* order of the real refractive indices of the transparent classes
Rank == [void |-> 1, low |-> 2, dense |-> 3]
Clear == {"void", "low", "dense"}

Init == /\ target = 0 /\ front = "" /\ lay = <<>> /\ back = "" /\ angle = "" /\ reflect = FALSE
        /\ offset = "" /\ route = "" /\ done = FALSE
Start == /\ front = "" /\ front' \in Pick(Fronts)
         /\ target' \in (IF Sim THEN Pick(0..MaxLayers) ELSE {0})
         /\ UNCHANGED <<lay, back, angle, reflect, offset, route, done>>
Grow == /\ front # "" /\ ~done /\ Len(lay) < (IF Sim THEN target ELSE MaxLayers)
        /\ \E m \in Pick(Media), d \in Pick(Thick) : lay' = Append(lay, [m |-> m, d |-> d])
        /\ UNCHANGED <<target, front, back, angle, reflect, offset, route, done>>
Finish == /\ front # "" /\ ~done /\ Len(lay) >= target
          /\ back' \in Pick(Backs) /\ angle' \in Pick(Angles) /\ reflect' \in Pick(BOOLEAN)
          /\ offset' \in Pick(Offsets) /\ route' \in Pick(Routes)
          /\ done' = TRUE /\ UNCHANGED <<target, front, lay>>
Next == Start \/ Grow \/ Finish

Present(l) == l.d # "zero"
Opaque(l) == l.d = "opaque" /\ l.m \in {"metal"}
\* what light meets before it is absorbed
Lit == LET k == {i \in 1..Len(lay) : Opaque(lay[i])}
       IN IF k = {} THEN lay ELSE SubSeq(lay, 1, (CHOOSE i \in k : \A j \in k : i <= j))
Screened == \E i \in 1..Len(lay) : Opaque(lay[i])
\* nothing absorbs
Lossless == /\ ~Screened /\ back \in Clear
            /\ \A i \in 1..Len(lay) : Present(lay[i]) => lay[i].m \in Clear
FrontRank == IF front = "absorbing" THEN 2 ELSE Rank[front]
\* beyond the critical angle: the driver's steep and grazing angles are, for
\* every backing of lower rank than the front
TIR == Lossless /\ FrontRank > Rank[back] /\ angle \in {"steep", "grazing"}
\* a bare interface between transparent media: delta is 0 or 180
Bare == Lossless /\ (\A i \in 1..Len(lay) : ~Present(lay[i]))
\* front, backing and every layer present have one index: nothing is reflected
Nothing == /\ Lossless /\ Rank[back] = FrontRank
           /\ \A i \in 1..Len(lay) : Present(lay[i]) => Rank[lay[i].m] = FrontRank
\* total reflection keeps the intensity: psi is 45 degrees
Psi45 == TIR
\* delta is a multiple of 180
\* (close to a critical angle nothing is said about either)
Flat == Bare /\ ~TIR /\ ~Nothing /\ angle # "critical"
Below == IF Screened THEN Len(Lit) + 1 ELSE 0

Consistent == done => /\ ~(Psi45 /\ Flat) /\ (Nothing => ~TIR)
                      /\ (Screened => ~Lossless) /\ Len(Lit) <= Len(lay)
Emit == done => PrintT(ToJson([front |-> front, lay |-> lay, back |-> back, angle |-> angle,
          reflect |-> reflect, offset |-> offset, route |-> route,
          psi45 |-> Psi45, flat |-> Flat, nothing |-> Nothing, below |-> Below]))
=============================================================================
