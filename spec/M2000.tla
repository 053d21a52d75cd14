------------------------------- MODULE M2000 -------------------------------
(* Reading a Woollam M2000 text file, static or dynamic (one row per        *)
(* wavelength and time).  Times are ranks: 1 is the earliest.  A reading is  *)
(* a token: equal readings (same wavelength, angle, psi, delta) may recur.   *)
EXTENDS Common
CONSTANTS Times, Readings, MaxLen, MaxDrop, MaxTake, NMeta, Sim
VARIABLES kind, drop, take, nmeta, rows, closed, target,
          series    \* time -> row numbers in file order
vars == <<kind, drop, take, nmeta, rows, closed, target, series>>

Init == /\ kind \in {"static", "dynamic", "other"}
        /\ drop \in 1..MaxDrop /\ take \in 1..MaxTake /\ nmeta \in 1..NMeta
        /\ target \in 1..(IF Sim THEN MaxLen ELSE 1)
        /\ rows = <<>> /\ closed = FALSE
        /\ series = [t \in Times |-> <<>>]

Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
Add(t, v) == /\ ~closed /\ Len(rows) < MaxLen /\ (Sim => Len(rows) < target) /\ kind # "other"
          /\ rows' = Append(rows, [t |-> t, v |-> v])
          /\ series' = [series EXCEPT ![t] = Append(@, Len(rows) + 1)]
          /\ UNCHANGED <<kind, drop, take, nmeta, closed, target>>
One == CHOOSE t \in Times : \A u \in Times : t <= u
AddRow == \E t \in (IF kind = "dynamic" THEN Pick(Times) ELSE {One}), v \in Pick(Readings) : Add(t, v)
Close == /\ ~closed /\ (Len(rows) > 0 \/ kind = "other") /\ (Sim /\ kind # "other" => Len(rows) = target) /\ closed' = TRUE
         /\ UNCHANGED <<kind, drop, take, nmeta, rows, target, series>>
Next == AddRow \/ Close

Present == Ascending({t \in Times : Len(series[t]) > 0})
Kept == IF kind = "dynamic" THEN EveryNth(Present, take) ELSE Present
Out == LET k == Kept IN [i \in 1..Len(k) |-> [t |-> k[i], rows |-> EveryNth(series[k[i]], drop)]]

\* Design properties of a finished file
Ordered == closed => LET o == Out IN \A i \in 1..(Len(o) - 1) : o[i].t < o[i+1].t
OwnRows == closed => LET o == Out IN \A i \in 1..Len(o) : \A j \in 1..Len(o[i].rows) :
              rows[o[i].rows[j]].t = o[i].t
FileOrder == closed => LET o == Out IN \A i \in 1..Len(o) : \A j \in 1..(Len(o[i].rows) - 1) :
              o[i].rows[j] < o[i].rows[j+1]
AllWithoutThinning == (closed /\ drop = 1 /\ take = 1) => LET o == Out IN
    UNION {Range(o[i].rows) : i \in 1..Len(o)} = 1..Len(rows)
FirstKept == (closed /\ Len(rows) > 0) => LET o == Out IN
             /\ o[1].t = Present[1]
             /\ \A i \in 1..Len(o) : o[i].rows[1] = series[o[i].t][1]
Counts == closed => LET o == Out k == Len(Present) IN
          /\ Len(o) = (IF kind = "dynamic" THEN (k + take - 1) \div take ELSE k)
          /\ \A i \in 1..Len(o) : Len(o[i].rows) = (Len(series[o[i].t]) + drop - 1) \div drop

Emit == closed => PrintT(ToJson([kind |-> kind, drop |-> drop, take |-> take, nmeta |-> nmeta,
                                 rows |-> rows, out |-> Out]))
=============================================================================
