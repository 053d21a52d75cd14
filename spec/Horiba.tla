------------------------------- MODULE Horiba -------------------------------
(* Reading a Horiba file line by line: "# LABEL:" opens a section, a blank  *)
(* line ends it.  The section DATA holds a title line and the measurements, *)
(* the section ANGLE the angle of incidence.                                *)
EXTENDS Common
CONSTANTS Labels,      \* other section labels
          MaxLines,    \* lines of an ordinary section
          MaxRows, Wavs, Sim
VARIABLES lines,       \* the file so far: [k |-> kind, v |-> value]
          cur,         \* section being read, "" outside
          meta,        \* label -> number of lines (-1: not seen)
          data,        \* wavelengths of the data rows, in file order
          cut,         \* cut-off limits <<lo, hi>>, 0 = none
          reflect, closed, target
vars == <<lines, cur, meta, data, cut, reflect, closed, target>>
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
All == Labels \cup {"DATA", "ANGLE"}

Init == /\ lines = <<>> /\ cur = "" /\ meta = [l \in All |-> -1] /\ data = <<>>
        /\ cut \in (Wavs \cup {0}) \X (Wavs \cup {0})
        /\ reflect \in BOOLEAN /\ closed = FALSE
        /\ target \in 1..(IF Sim THEN MaxRows ELSE 1)

OpenSection(l) == /\ ~closed /\ cur = "" /\ meta[l] = -1
                  /\ cur' = l /\ meta' = [meta EXCEPT ![l] = 0]
                  /\ lines' = Append(lines, [k |-> "label", v |-> l])
                  /\ UNCHANGED <<data, cut, reflect, closed, target>>
TextLine == /\ cur \in All \ {"DATA"}
            /\ meta[cur] < (IF cur = "ANGLE" THEN 1 ELSE MaxLines)
            /\ meta' = [meta EXCEPT ![cur] = @ + 1]
            /\ lines' = Append(lines, [k |-> "text", v |-> cur])
            /\ UNCHANGED <<cur, data, cut, reflect, closed, target>>
TitleLine == /\ cur = "DATA" /\ meta["DATA"] = 0
             /\ meta' = [meta EXCEPT !["DATA"] = 1]
             /\ lines' = Append(lines, [k |-> "title", v |-> "DATA"])
             /\ UNCHANGED <<cur, data, cut, reflect, closed, target>>
DataLine(w) == /\ cur = "DATA" /\ meta["DATA"] > 0 /\ Len(data) < MaxRows
               /\ data' = Append(data, w)
               /\ meta' = [meta EXCEPT !["DATA"] = @ + 1]
               /\ lines' = Append(lines, [k |-> "row", v |-> ToString(w)])
               /\ UNCHANGED <<cur, cut, reflect, closed, target>>
EndSection == /\ cur # "" /\ (cur = "DATA" => Len(data) >= target) /\ (cur = "ANGLE" => meta["ANGLE"] = 1)
              /\ cur' = "" /\ lines' = Append(lines, [k |-> "blank", v |-> ""])
              /\ UNCHANGED <<meta, data, cut, reflect, closed, target>>
Blank == /\ ~closed /\ cur = "" /\ Len(lines) > 0 /\ Len(lines) < 4
         /\ lines' = Append(lines, [k |-> "blank", v |-> ""])
         /\ UNCHANGED <<cur, meta, data, cut, reflect, closed, target>>
Close == /\ ~closed /\ cur = "" /\ Len(data) > 0 /\ meta["ANGLE"] = 1 /\ closed' = TRUE
         /\ UNCHANGED <<lines, cur, meta, data, cut, reflect, target>>
Next == (\E l \in All : OpenSection(l)) \/ TextLine \/ TitleLine
        \/ ((cur = "DATA" /\ \E w \in Pick(Wavs) : DataLine(w))) \/ EndSection \/ Blank \/ Close

Passes(w) == (cut[1] = 0 \/ w > cut[1]) /\ (cut[2] = 0 \/ w < cut[2])
KeptRows == SelectSeq([i \in 1..Len(data) |-> i], LAMBDA i : Passes(data[i]))

RowsInSection == meta["DATA"] > 0 => meta["DATA"] = Len(data) + 1
Exact == Len(KeptRows) = Cardinality({i \in 1..Len(data) : Passes(data[i])})
Emit == closed => PrintT(ToJson([lines |-> lines, meta |-> meta, data |-> data, cut |-> cut,
                                 reflect |-> reflect, kept |-> KeptRows]))
=============================================================================
