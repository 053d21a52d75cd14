------------------------------ MODULE Shipped ------------------------------
(* The dispersion curves that come with refellips: every entry of the list  *)
(* of names loads, under its own name, the curve of its own file; other     *)
(* names are refused.  A curve with m rows is queried at places relative to  *)
(* its rows; the answer is a place too: row i, or a point between two rows.  *)
EXTENDS Common
CONSTANTS NMat,      \* materials 1..NMat; 0 and beyond: names that do not exist
          Rows,      \* row indices in units of 1/RDen of the table length
          RDen, FDen \* fraction of the way to the next row
VARIABLES mat, refused, qs
vars == <<mat, refused, qs>>

Init == mat \in 0..NMat /\ refused = FALSE /\ qs = <<>>
Refuse == /\ mat = 0 /\ ~refused /\ refused' = TRUE /\ UNCHANGED <<mat, qs>>
\* a query: below the table, above it, or row r plus fraction f
Places == [kind : {"below", "above", "default"}, r : {0}, f : {0}] \cup
          [kind : {"at"}, r : Rows, f : 0..(FDen - 1)]
\* weights <<w0, w1>>/FDen of row r and the next; "first", "last" for the ends
Ans(q) == CASE q.kind = "below" -> [row |-> "first", w |-> <<FDen, 0>>]
            [] q.kind = "above" -> [row |-> "last", w |-> <<FDen, 0>>]
            [] q.kind = "default" -> [row |-> "search", w |-> <<0, 0>>]
            [] OTHER -> [row |-> "r", w |-> <<FDen - q.f, q.f>>]
Ask == /\ mat > 0 /\ Len(qs) = 0
       /\ \E q \in Places : qs' = <<[q |-> q, ans |-> Ans(q)]>>
       /\ UNCHANGED <<mat, refused>>
Next == Refuse \/ Ask
Convex == \A i \in 1..Len(qs) : LET w == qs[i].ans.w IN
            qs[i].q.kind # "default" => w[1] >= 0 /\ w[2] >= 0 /\ w[1] + w[2] = FDen
Emit == (refused \/ Len(qs) = 1) => PrintT(ToJson([mat |-> mat, refused |-> refused, qs |-> qs]))
=============================================================================
