------------------------------ MODULE Rewrite ------------------------------
(* Descriptions of one stack that are optically the same.  A description is *)
(* a sequence of layers between a front and a back medium; rewriting it     *)
(* must not change its normal form.                                         *)
EXTENDS Common, Randomization
CONSTANTS NM, MaxD, Big, MaxLen, MaxOps, Forms, Sim
\* material NM is a metal; a layer of it of Big units or more is opaque
VARIABLES front, orig, ob, cur, cb, desc, hist, phase
vars == <<front, orig, ob, cur, cb, desc, hist, phase>>
Pick(S) == IF Sim /\ S # {} THEN RandomSubset(1, S) ELSE S
Layer(m, d, r, f) == [m |-> m, d |-> d, ro |-> r, f |-> f]

\* ---- normal form: <<layers <<m, d>>, backing>>
NoZero(l) == SelectSeq(l, LAMBDA x : x.d > 0)
MergeAll(l) == FoldLeft(LAMBDA acc, x :
    IF Len(acc) > 0 /\ acc[Len(acc)].m = x.m
    THEN [acc EXCEPT ![Len(acc)].d = @ + x.d]
    ELSE Append(acc, [m |-> x.m, d |-> x.d]), <<>>, l)
OpaqueAt(l) == {i \in 1..Len(l) : l[i].m = NM /\ l[i].d >= Big}
Screen(l, b) == IF OpaqueAt(l) = {} THEN <<l, b>>
                ELSE LET i == CHOOSE j \in OpaqueAt(l) : \A k \in OpaqueAt(l) : j <= k
                     IN <<SubSeq(l, 1, i - 1), NM>>
NF(l, b) ==
  LET s == Screen(MergeAll(NoZero(l)), b)
      a == IF Len(s[1]) > 0 /\ s[1][1].m = front THEN Tail(s[1]) ELSE s[1]
  IN <<IF Len(a) > 0 /\ a[Len(a)].m = s[2] THEN SubSeq(a, 1, Len(a) - 1) ELSE a, s[2]>>

Init == /\ front = 0 /\ orig = <<>> /\ ob = 0 /\ cur = <<>> /\ cb = 0
        /\ desc = "forward" /\ hist = <<>> /\ phase = "build"
Build == /\ phase = "build"
         /\ \/ /\ Len(orig) < MaxLen - 2
               /\ \E m \in Pick(1..NM), d \in Pick(0..MaxD) : orig' = Append(orig, Layer(m, d, 0, "slab"))
               /\ UNCHANGED <<front, ob, cur, cb, phase>>
            \/ /\ \E a \in Pick(1..(NM-1)), b \in Pick(1..NM) : front' = a /\ ob' = b /\ cb' = b
               /\ cur' = orig /\ phase' = "rewrite" /\ UNCHANGED orig
         /\ UNCHANGED <<desc, hist>>
Step(op, l, b, d) == /\ cur' = l /\ cb' = b /\ desc' = d
                     /\ hist' = Append(hist, op)
                     /\ UNCHANGED <<front, orig, ob, phase>>
Ready == phase = "rewrite" /\ Len(hist) < MaxOps
Ins(i, x) == SubSeq(cur, 1, i) \o <<x>> \o SubSeq(cur, i + 1, Len(cur))
Del(i) == SubSeq(cur, 1, i - 1) \o SubSeq(cur, i + 1, Len(cur))
Room == Len(cur) < MaxLen
AddZero == Ready /\ Room /\ \E i \in Pick(0..Len(cur)), m \in Pick(1..NM) : Step("zero", Ins(i, Layer(m, 0, 0, "slab")), cb, desc)
DelZero == Ready /\ \E i \in Pick({j \in 1..Len(cur) : cur[j].d = 0}) : Step("unzero", Del(i), cb, desc)
Split == /\ Ready /\ Room
         /\ \E i \in Pick({j \in 1..Len(cur) : cur[j].d > 1}) : \E k \in Pick(1..(cur[i].d - 1)) :
              Step("split", SubSeq(cur, 1, i - 1) \o <<[cur[i] EXCEPT !.d = k], [cur[i] EXCEPT !.d = @ - k]>>
                            \o SubSeq(cur, i + 1, Len(cur)), cb, desc)
Merge == /\ Ready
         /\ \E i \in Pick({j \in 1..(Len(cur) - 1) : cur[j].m = cur[j + 1].m}) :
              Step("merge", SubSeq(cur, 1, i - 1) \o <<[cur[i] EXCEPT !.d = @ + cur[i + 1].d]>>
                            \o SubSeq(cur, i + 2, Len(cur)), cb, desc)
OnTop == Ready /\ Room /\ \E d \in Pick(1..MaxD) : Step("top", Ins(0, Layer(front, d, 0, "slab")), cb, desc)
OffTop == Ready /\ Len(cur) > 0 /\ cur[1].m = front /\ Step("untop", Tail(cur), cb, desc)
AtBottom == Ready /\ Room /\ \E d \in Pick(1..MaxD) : Step("bottom", Ins(Len(cur), Layer(cb, d, 0, "slab")), cb, desc)
OffBottom == Ready /\ Len(cur) > 0 /\ cur[Len(cur)].m = cb /\ Step("unbottom", SubSeq(cur, 1, Len(cur) - 1), cb, desc)
Rough == Ready /\ Len(cur) > 0 /\ \E i \in Pick(1..Len(cur)), r \in Pick(0..3) : Step("rough", [cur EXCEPT ![i].ro = r], cb, desc)
Reform == Ready /\ Len(cur) > 0 /\ \E i \in Pick(1..Len(cur)), f \in Pick(Forms) : Step("form", [cur EXCEPT ![i].f = f], cb, desc)
Turn == Ready /\ Step("turn", cur, cb, IF desc = "forward" THEN "reversed" ELSE "forward")
\* anything below an opaque layer
Below == /\ Ready
         /\ \E i \in Pick(OpaqueAt(cur)), b \in Pick(1..NM), m \in Pick(1..NM), d \in Pick(0..MaxD) :
              \/ Step("backing", cur, b, desc)
              \/ /\ i < Len(cur)
                 /\ Step("below", [cur EXCEPT ![Len(cur)] = Layer(m, d, 0, "slab")], cb, desc)
              \/ Step("cut", SubSeq(cur, 1, i), cb, desc)
Next == Build \/ AddZero \/ DelZero \/ Split \/ Merge \/ OnTop \/ OffTop \/ AtBottom
        \/ OffBottom \/ Rough \/ Reform \/ Turn \/ Below

\* Design property: the rewriting rules preserve the normal form
SameOptics == phase = "rewrite" => NF(cur, cb) = NF(orig, ob)
AbsView == <<front, orig, ob, cur, cb, desc, Len(hist), phase>>
Beh == [front |-> front, orig |-> orig, ob |-> ob, cur |-> cur', cb |-> cb', desc |-> desc', ops |-> hist', metal |-> NM, big |-> Big]
EmitStep == (phase = "rewrite") => PrintT(ToJson(Beh))
EmitSim == (phase = "rewrite" /\ Len(hist) > 0) => PrintT(ToJson([front |-> front, orig |-> orig, ob |-> ob,
              cur |-> cur, cb |-> cb, desc |-> desc, ops |-> hist, metal |-> NM, big |-> Big]))
=============================================================================
