----------------------------- MODULE FilmSense -----------------------------
(* Reading a FilmSense file.  The header announces nw wavelengths and nt    *)
(* data sets; a reader position (line number) walks through the file and    *)
(* every cell (time i, wavelength j) of N, C, S values is one token whose    *)
(* class is the octant of delta and a class of psi.                         *)
EXTENDS Common
CONSTANTS MaxW, MaxT, Octants, PsiClasses, Sim
VARIABLES kind, nw, nt, line, cells, wl, series, closed
vars == <<kind, nw, nt, line, cells, wl, series, closed>>
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S

\* one value per wavelength
Rows(S) == IF Sim THEN {TLCEval([j \in 1..nw |-> RandomElement(S)])} ELSE [1..nw -> S]

Init == /\ kind \in {"static", "dynamic", "other"}
        /\ nw \in 1..MaxW
        /\ nt \in (IF kind = "dynamic" THEN 1..MaxT ELSE {1})
        /\ line = 0 /\ cells = <<>> /\ wl = <<>> /\ series = <<>> /\ closed = FALSE

\* line 1..nw after the header: one wavelength each
ReadWavelength == /\ kind # "other" /\ line < nw
                  /\ line' = line + 1 /\ wl' = Append(wl, line + 1)
                  /\ UNCHANGED <<kind, nw, nt, cells, series, closed>>
\* static: nw further lines with N, C, S of one wavelength each
ReadStaticLine == /\ kind = "static" /\ line >= nw /\ line < 2 * nw
                  /\ \E o \in Pick(Octants), p \in Pick(PsiClasses) :
                       cells' = Append(cells, [t |-> 1, w |-> line - nw + 1, oct |-> o, psi |-> p])
                  /\ line' = line + 1
                  /\ series' = IF line + 1 = 2 * nw THEN <<1>> ELSE series
                  /\ UNCHANGED <<kind, nw, nt, wl, closed>>
\* dynamic: a title line, then one line per time holding all wavelengths
ReadTitle == /\ kind = "dynamic" /\ line = nw
             /\ line' = line + 1 /\ UNCHANGED <<kind, nw, nt, cells, wl, series, closed>>
ReadTime == /\ kind = "dynamic" /\ line > nw /\ Len(series) < nt
            /\ \E os \in Rows(Octants), ps \in Rows(PsiClasses) :
                 cells' = cells \o [j \in 1..nw |->
                    [t |-> Len(series) + 1, w |-> j, oct |-> os[j], psi |-> ps[j]]]
            /\ series' = Append(series, Len(series) + 1)
            /\ line' = line + 1
            /\ UNCHANGED <<kind, nw, nt, wl, closed>>
Close == /\ ~closed /\ (kind = "other" \/ Len(series) = nt) /\ closed' = TRUE
         /\ UNCHANGED <<kind, nw, nt, line, cells, wl, series>>
Next == ReadWavelength \/ ReadStaticLine \/ ReadTitle \/ ReadTime \/ Close

Out == [i \in 1..Len(series) |->
          [t |-> series[i],
           pts |-> SelectSeq(cells, LAMBDA c : c.t = series[i])]]

OneCellEach == closed /\ kind # "other" =>
   \A i \in 1..nt : \A j \in 1..nw :
      Cardinality({k \in 1..Len(cells) : cells[k].t = i /\ cells[k].w = j}) = 1
InOrder == closed => \A i \in 1..Len(Out) : \A j \in 1..Len(Out[i].pts) :
      Out[i].pts[j].w = wl[j] /\ Out[i].pts[j].t = i
Emit == closed => PrintT(ToJson([kind |-> kind, nw |-> nw, nt |-> nt, out |-> Out]))
=============================================================================
