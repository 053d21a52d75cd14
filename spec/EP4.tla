-------------------------------- MODULE EP4 --------------------------------
(* Reading an Accurion EP4 file.  The file grows row by row; next to it the *)
(* reader keeps, per measurement time, the sample areas seen so far.        *)
(* Positions are in 0.01 mm.                                                *)
EXTENDS Common
CONSTANTS Ts, Xs, Ys, Aois, Lams, MaxLen, Sim, MissOneIn
VARIABLES hasT, hasP, reflect, rows, closed, target,
          tord,   \* measurement times in order of first appearance
          areas   \* time -> sequence of areas, an area is a sequence of row numbers
vars == <<hasT, hasP, reflect, rows, closed, target, tord, areas>>

Tol == 20   \* 0.2 mm
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S

Init == /\ hasT \in BOOLEAN /\ hasP \in BOOLEAN /\ reflect \in BOOLEAN
        /\ rows = <<>> /\ closed = FALSE /\ target \in 1..(IF Sim THEN MaxLen ELSE 1)
        /\ tord = <<>> /\ areas = [t \in Ts \cup {0} |-> <<>>]

Far(r, s) == Abs(r.x - s.x) > Tol \/ Abs(r.y - s.y) > Tol

\* the reader sees complete row number i
Insert(A, rs, i) ==
  IF Len(A) = 0 THEN << <<i>> >>
  ELSE LET last == A[Len(A)]
           anchor == rs[last[1]]
       IN IF hasP /\ Far(rs[i], anchor) THEN Append(A, <<i>>)
          ELSE [A EXCEPT ![Len(A)] = Append(last, i)]

AddRow(r) ==
  /\ ~closed /\ Len(rows) < MaxLen /\ (Sim => Len(rows) < target \/ Len(tord) = 0)
  /\ rows' = Append(rows, r)
  /\ LET t == IF hasT THEN r.t ELSE 0
         i == Len(rows) + 1
     IN IF r.ok
        THEN /\ tord' = IF \E j \in 1..Len(tord) : tord[j] = t THEN tord ELSE Append(tord, t)
             /\ areas' = [areas EXCEPT ![t] = Insert(@, rows', i)]
        ELSE UNCHANGED <<tord, areas>>
  /\ UNCHANGED <<hasT, hasP, reflect, closed, target>>

OkFlags(x) == IF Sim THEN {RandomElement(1..MissOneIn) # 1} ELSE BOOLEAN

Add == \E t \in Pick(IF hasT THEN Ts ELSE {0}) :
       \E x \in Pick(IF hasP THEN Xs ELSE {0}) :
       \E y \in Pick(IF hasP THEN Ys ELSE {0}) :
       \E a \in Pick(Aois) : \E l \in Pick(Lams) : \E ok \in OkFlags(rows) :
         AddRow([t |-> t, x |-> x, y |-> y, aoi |-> a, lam |-> l, ok |-> ok])

Close == /\ ~closed /\ Len(tord) > 0 /\ (Sim => Len(rows) >= target) /\ closed' = TRUE
         /\ UNCHANGED <<hasT, hasP, reflect, rows, target, tord, areas>>
Next == Add \/ Close

-----------------------------------------------------------------------------
\* The datasets that loading the file has to give

RowsOf(t) == FlattenSeq(areas[t])
Cells(area) ==
  LET K == {<<rows[i].aoi, rows[i].lam>> : i \in Range(area)}
      as == Ascending({k[1] : k \in K})
      ls(a) == Ascending({k[2] : k \in {q \in K : q[1] = a}})
      cell(a, l) == [aoi |-> a, lam |-> l,
                     rows |-> SelectSeq(area, LAMBDA i : rows[i].aoi = a /\ rows[i].lam = l)]
  IN FlattenSeq([i \in 1..Len(as) |-> [j \in 1..Len(ls(as[i])) |-> cell(as[i], ls(as[i])[j])]])

Located(t) == /\ hasP
              /\ LET r == RowsOf(t) IN
                 \E i \in Range(r) : rows[i].x # rows[r[1]].x \/ rows[i].y # rows[r[1]].y
Timed == Len(tord) > 1

Out == FlattenSeq([k \in 1..Len(tord) |->
         LET t == tord[k] IN
         [j \in 1..Len(areas[t]) |->
            [time |-> IF Timed THEN t ELSE 0, timed |-> Timed, located |-> Located(t),
             area |-> areas[t][j], cells |-> Cells(areas[t][j])]]])

-----------------------------------------------------------------------------
\* Design properties (of a finished file: every prefix of a file is one)
Complete == {i \in 1..Len(rows) : rows[i].ok}
Done(o) == [d \in 1..Len(o) |-> FlattenSeq([c \in 1..Len(o[d].cells) |-> o[d].cells[c].rows])]
Partition ==     \* every complete row in exactly one cell of exactly one dataset
  closed => LET o == Out
                used == FlattenSeq(Done(o))
            IN /\ Len(used) = Cardinality(Complete)
               /\ Range(used) = Complete
               /\ \A d \in 1..Len(o) : Range(Done(o)[d]) = Range(o[d].area)
Sorted == closed => LET o == Out IN
  \A d \in 1..Len(o) : \A c \in 1..(Len(o[d].cells) - 1) :
            LET p == o[d].cells[c] q == o[d].cells[c+1]
            IN p.aoi < q.aoi \/ (p.aoi = q.aoi /\ p.lam < q.lam)
Homogeneous == closed => LET o == Out IN
  \A d \in 1..Len(o) : \A i \in Range(o[d].area) :
            (hasT => rows[i].t = rows[o[d].area[1]].t)
            /\ (hasP => ~Far(rows[o[d].area[1]], rows[i]))
Contiguous == \* areas of a time follow each other in file order
  \A t \in Range(tord) : LET r == RowsOf(t) IN \A i \in 1..(Len(r) - 1) : r[i] < r[i+1]
Separated == \A t \in Range(tord) : \A j \in 1..(Len(areas[t]) - 1) :
            Far(rows[areas[t][j][1]], rows[areas[t][j+1][1]])

Emit == closed => PrintT(ToJson([hasT |-> hasT, hasP |-> hasP, reflect |-> reflect,
                                 rows |-> rows, out |-> Out]))
=============================================================================
