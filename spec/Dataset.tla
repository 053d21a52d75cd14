------------------------------ MODULE Dataset ------------------------------
(* Ellipsometry datasets: points, mask, delta convention, files.            *)
(*                                                                          *)
(* A point is a token p \in 1..NP; it stands for one measured               *)
(* (wavelength, angle, psi, delta).  Hi(p): its delta is above 180 degrees. *)
(* A row <<p, r>> is point p as held by a dataset or a file, r = TRUE when  *)
(* its delta has been replaced by 360 - delta.                              *)
EXTENDS Common

CONSTANTS Handles,   \* names of datasets
          Files,     \* names of files
          NP, MaxRows, MaxOps,
          Sim,       \* TRUE: draw arguments at random (simulation)
          Ops        \* enabled operations

VARIABLES ds, files, hist
vars == <<ds, files, hist>>

NoFile == ""
Hi(p) == p % 2 = 0
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S

RowSeqs == UNION {[1..n -> 1..NP] : n \in 1..MaxRows}
\* (with a parameter: TLC evaluates constant definitions only once)
PickRows(x) == IF Sim THEN {TLCEval([i \in 1..RandomElement(1..MaxRows) |-> RandomElement(1..NP)])}
               ELSE RowSeqs
Fresh(ps) == [i \in 1..Len(ps) |-> <<ps[i], FALSE>>]
Refl(row) == <<row[1], Hi(row[1])>>
Reflect(rows, flag) == IF flag THEN [i \in 1..Len(rows) |-> Refl(rows[i])] ELSE rows

Dead == [live |-> FALSE, rows |-> <<>>, mask |-> <<>>, flip |-> FALSE, file |-> NoFile]
NoContent == [there |-> FALSE, rows |-> <<>>, hdr |-> 0]

\* ways to give a mask for n points: nothing, one value, or one value per point
MaskArgs(n) == [form : {"none"}, val : {<<>>}] \cup
               [form : {"all"}, val : {<<TRUE>>, <<FALSE>>}] \cup
               [form : {"each"}, val : [1..n -> BOOLEAN]]
Expand(m, n) == CASE m.form = "none" -> [i \in 1..n |-> TRUE]
                  [] m.form = "all"  -> [i \in 1..n |-> m.val[1]]
                  [] OTHER           -> m.val

Init == /\ ds = [h \in Handles |-> Dead]
        /\ files = [f \in Files |-> NoContent]
        /\ hist = <<>>

\* what an observer can see of a dataset
View(d) == [live |-> d.live, flip |-> d.flip, mask |-> d.mask, all |-> d.rows,
            seen |-> Masked(d.rows, d.mask)]
Log(rec) == hist' = Append(hist, rec @@ [obs |-> [h \in Handles |-> View(ds'[h])],
                                         fobs |-> files'])
Room(op) == op \in Ops /\ Len(hist) < MaxOps

New(h) == /\ Room("New")
          /\ \E ps \in PickRows(hist) : \E rf \in BOOLEAN : \E m \in Pick(MaskArgs(Len(ps))) :
               /\ ds' = [ds EXCEPT ![h] = [live |-> TRUE, rows |-> Reflect(Fresh(ps), rf),
                              mask |-> Expand(m, Len(ps)), flip |-> rf, file |-> NoFile]]
               /\ UNCHANGED files
               /\ Log([op |-> "New", h |-> h, pts |-> ps, rf |-> rf, m |-> m])

\* a dataset made from another dataset
NewFrom(h, g) == /\ Room("NewFrom") /\ h # g /\ ds[g].live
          /\ \E rf \in BOOLEAN : \E m \in Pick(MaskArgs(Len(ds[g].rows))) :
               /\ ds' = [ds EXCEPT ![h] = [live |-> TRUE, rows |-> Reflect(ds[g].rows, rf),
                              mask |-> IF m.form = "none" THEN ds[g].mask
                                       ELSE Expand(m, Len(ds[g].rows)),
                              flip |-> rf \/ ds[g].flip, file |-> ds[g].file]]
               /\ UNCHANGED files
               /\ Log([op |-> "NewFrom", h |-> h, g |-> g, rf |-> rf, m |-> m])

Open(h, f) == /\ Room("Open") /\ files[f].there
          /\ \E rf \in BOOLEAN : \E kind \in {"str", "path", "handle"} :
             \E m \in Pick(MaskArgs(Len(files[f].rows))) :
               /\ ds' = [ds EXCEPT ![h] = [live |-> TRUE, rows |-> Reflect(files[f].rows, rf),
                              mask |-> Expand(m, Len(files[f].rows)), flip |-> rf,
                              file |-> IF kind = "handle" THEN NoFile ELSE f]]
               /\ UNCHANGED files
               /\ Log([op |-> "Open", h |-> h, f |-> f, rf |-> rf, kind |-> kind, m |-> m])

\* copy.copy, copy.deepcopy, pickle
Clone(h, g) == /\ Room("Clone") /\ h # g /\ ds[g].live
          /\ \E how \in {"copy", "deepcopy", "pickle"} :
               /\ ds' = [ds EXCEPT ![h] = ds[g]]
               /\ UNCHANGED files
               /\ Log([op |-> "Clone", h |-> h, g |-> g, how |-> how])

SetMask(h) == /\ Room("SetMask") /\ ds[h].live
          /\ \E m \in Pick(MaskArgs(Len(ds[h].rows))) :
               /\ ds' = [ds EXCEPT ![h].mask = Expand(m, Len(ds[h].rows))]
               /\ UNCHANGED files
               /\ Log([op |-> "SetMask", h |-> h, m |-> m])

Replace(d, rows) == [d EXCEPT !.rows = Reflect(rows, d.flip),
                              !.mask = [i \in 1..Len(rows) |-> TRUE]]

Assign(h) == /\ Room("Assign") /\ ds[h].live
          /\ \E ps \in PickRows(hist) :
               /\ ds' = [ds EXCEPT ![h] = Replace(@, Fresh(ps))]
               /\ UNCHANGED files
               /\ Log([op |-> "Assign", h |-> h, pts |-> ps])

Save(h, f) == /\ Room("Save") /\ ds[h].live
          /\ \E kind \in {"str", "path", "handle"} :
               /\ files' = [files EXCEPT ![f] = [there |-> TRUE, rows |-> ds[h].rows, hdr |-> 1]]
               /\ UNCHANGED ds
               /\ Log([op |-> "Save", h |-> h, f |-> f, kind |-> kind])

Load(h, f) == /\ Room("Load") /\ ds[h].live /\ files[f].there
          /\ \E kind \in {"str", "path", "handle"} :
               /\ ds' = [ds EXCEPT ![h] = Replace(@, files[f].rows)]
               /\ UNCHANGED files
               /\ Log([op |-> "Load", h |-> h, f |-> f, kind |-> kind])

Refresh(h) == /\ Room("Refresh") /\ ds[h].live
          /\ ds[h].file # NoFile \* (without a file there is nothing to refresh)
          /\ files[ds[h].file].there
          /\ ds' = [ds EXCEPT ![h] = Replace(@, files[ds[h].file].rows)]
          /\ UNCHANGED files
          /\ Log([op |-> "Refresh", h |-> h])

\* somebody else (another program) rewrites a file
Rewrite(f) == /\ Room("Rewrite")
          /\ \E ps \in PickRows(hist) : \E hdr \in Pick(0..2) :
               /\ files' = [files EXCEPT ![f] = [there |-> TRUE, rows |-> Fresh(ps), hdr |-> hdr]]
               /\ UNCHANGED ds
               /\ Log([op |-> "Rewrite", f |-> f, pts |-> ps, hdr |-> hdr])

Next == \/ \E h \in Handles : New(h) \/ SetMask(h) \/ Assign(h) \/ Refresh(h)
        \/ \E h, g \in Handles : NewFrom(h, g) \/ Clone(h, g)
        \/ \E h \in Handles, f \in Files : Open(h, f) \/ Save(h, f) \/ Load(h, f)
        \/ \E f \in Files : Rewrite(f)

-----------------------------------------------------------------------------
\* Design properties

Live == {h \in Handles : ds[h].live}
Aligned == \A h \in Live : Len(ds[h].mask) = Len(ds[h].rows) /\ Len(ds[h].rows) >= 1
\* a reflected dataset never shows a delta above 180
Convention == \A h \in Live : ds[h].flip =>
                \A i \in 1..Len(ds[h].rows) : ds[h].rows[i] = Refl(ds[h].rows[i])
\* only points below 180 or really reflected ones are marked
Honest == /\ \A h \in Live : \A i \in 1..Len(ds[h].rows) :
                ds[h].rows[i][2] => Hi(ds[h].rows[i][1])
          /\ \A f \in Files : \A i \in 1..Len(files[f].rows) :
                files[f].rows[i][2] => Hi(files[f].rows[i][1])
\* the visible points are a subsequence
Subseq == \A h \in Live : LET v == View(ds[h]) IN
            /\ Len(v.seen) = Cardinality({i \in 1..Len(v.mask) : v.mask[i]})
            /\ \A i \in 1..Len(v.seen) : \E j \in 1..Len(v.all) : v.all[j] = v.seen[i] /\ v.mask[j]
\* saving then loading is the identity (for the convention of the data)
RoundTrip == \A h \in Live : Replace(ds[h], ds[h].rows).rows = ds[h].rows

LastOp == IF Len(hist) = 0 THEN "" ELSE hist[Len(hist)].op
MaskHides == [][ hist' # hist /\ hist'[Len(hist')].op = "SetMask"
                 => \A h \in Handles : ds'[h].rows = ds[h].rows /\ ds'[h].flip = ds[h].flip ]_vars
SaveReads == [][ hist' # hist /\ hist'[Len(hist')].op = "Save" => ds' = ds ]_vars
LoadReads == [][ hist' # hist /\ hist'[Len(hist')].op \in {"Open", "Load", "Refresh"} => files' = files ]_vars
OneAtATime == [][ \A h, g \in Handles : ds'[h] # ds[h] /\ ds'[g] # ds[g] => h = g ]_vars

\* projections for the exhaustive check / behaviour emission
AbsView == <<ds, files, Len(hist)>>
EmitStep == PrintT(ToJson(hist'))
EmitDone == Len(hist) = MaxOps => PrintT(ToJson(hist))
=============================================================================
