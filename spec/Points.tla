------------------------------- MODULE Points -------------------------------
(* Evaluating one model at lists of points, in any order and grouping.      *)
(* A point is <<wavelength, angle>>; what the model predicts for it is      *)
(* F(point), whatever the list it stands in.                                *)
EXTENDS Common, Randomization
CONSTANTS NW, NA, MaxLen, MaxOps, Sim
VARIABLES cur,    \* the list evaluated last
          prev,   \* the one before
          hist    \* how each list came about, with the list
vars == <<cur, prev, hist>>
Pick(S) == IF Sim /\ S # {} THEN RandomSubset(1, S) ELSE S
P == (1..NW) \X (1..NA)
\* a free function symbol: predictions of different points are unrelated
F(p) == [of |-> p]
Out(l) == MapSeq(F, l)

Init == /\ cur = <<>> /\ prev = <<>> /\ hist = <<>>
Log(op, l) == /\ prev' = cur /\ cur' = l
              /\ hist' = Append(hist, [op |-> op, pts |-> l])
Room == Len(hist) < MaxOps
AddPoint == /\ Room /\ Len(cur) < MaxLen
            /\ \E i \in Pick(0..Len(cur)), w \in Pick(1..NW), a \in Pick(1..NA) :
                 Log("insert", SubSeq(cur, 1, i) \o <<<<w, a>>>> \o SubSeq(cur, i + 1, Len(cur)))
Bulk == /\ Room /\ Sim /\ Len(cur) + 4 <= MaxLen
        /\ \E w1 \in Pick(1..NW), w2 \in Pick(1..NW), a1 \in Pick(1..NA), a2 \in Pick(1..NA),
              w3 \in Pick(1..NW), a3 \in Pick(1..NA) :
             Log("bulk", <<<<w1, a1>>, <<w2, a1>>>> \o cur \o <<<<w1, a2>>, <<w3, a3>>>>)
\* a whole grid of points, by wavelength or by angle
Grid == /\ Room /\ Sim
        /\ \E k \in Pick(1..NW), l \in Pick(1..NA), byw \in Pick(BOOLEAN) :
             /\ Len(cur) + k * l <= MaxLen
             /\ Log("grid", cur \o [i \in 1..(k * l) |->
                  IF byw THEN <<((i - 1) \div l) + 1, ((i - 1) % l) + 1>> ELSE <<((i - 1) % k) + 1, ((i - 1) \div k) + 1>>])
Swap == /\ Room /\ Len(cur) > 1
        /\ \E i \in Pick(1..Len(cur)), j \in Pick(1..Len(cur)) : i # j
             /\ Log("swap", [k \in 1..Len(cur) |-> IF k = i THEN cur[j] ELSE IF k = j THEN cur[i] ELSE cur[k]])
Turn == Room /\ Len(cur) > 1 /\ hist[Len(hist)].op # "reverse" /\ Log("reverse", Reverse(cur))
RepeatAll == Room /\ Len(cur) > 0 /\ 2 * Len(cur) <= MaxLen /\ Log("repeat", cur \o cur)
Drop == /\ Room /\ Len(cur) > 1
        /\ \E i \in Pick(1..Len(cur)) : Log("drop", SubSeq(cur, 1, i - 1) \o SubSeq(cur, i + 1, Len(cur)))
Split == /\ Room /\ Len(cur) > 1
         /\ \E i \in Pick(1..(Len(cur) - 1)), s \in Pick(BOOLEAN) :
              Log("split", IF s THEN SubSeq(cur, 1, i) ELSE SubSeq(cur, i + 1, Len(cur)))
Thin == Room /\ Len(cur) > 2 /\ \E n \in Pick(2..3) : Log("thin", EveryNth(cur, n))
Join == Room /\ Len(cur) > 0 /\ Len(prev) > 0 /\ Len(cur) + Len(prev) <= MaxLen /\ Log("join", prev \o cur)
Mask == /\ Room /\ Len(cur) > 0
        /\ \E m \in (IF Sim THEN {TLCEval({i \in 1..Len(cur) : RandomElement(1..4) # 1})} ELSE SUBSET (1..Len(cur))) : m # {} /\
             hist' = Append(hist, [op |-> "mask", pts |-> Masked(cur, [i \in 1..Len(cur) |-> i \in m]),
                                   all |-> cur, mask |-> [i \in 1..Len(cur) |-> i \in m]])
        /\ UNCHANGED <<cur, prev>>
Next == AddPoint \/ Bulk \/ Grid \/ Swap \/ Turn \/ RepeatAll \/ Drop \/ Split \/ Thin \/ Join \/ Mask

\* Design properties: results follow the points
EachOwn == Len(Out(cur)) = Len(cur) /\ \A i \in 1..Len(cur) : Out(cur)[i] = F(cur[i])
Same == \A i, j \in 1..Len(cur) : cur[i] = cur[j] <=> Out(cur)[i] = Out(cur)[j]
JoinSplits == \A k \in 0..Len(cur) : Out(SubSeq(cur, 1, k)) \o Out(SubSeq(cur, k + 1, Len(cur))) = Out(cur)
ThinFollows == \A n \in 1..3 : Len(cur) > 0 => EveryNth(Out(cur), n) = Out(EveryNth(cur, n))

AbsView == <<cur, prev, Len(hist)>>
EmitStep == PrintT(ToJson(hist'))
EmitDone == (Len(hist) = MaxOps) => PrintT(ToJson(hist))
=============================================================================
