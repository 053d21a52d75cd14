-------------------------------- MODULE Fit --------------------------------
(* Objectives: parameters, models that share them, datasets with their own  *)
(* masks and delta conventions, objectives over both, co-refinement, copies *)
(* and read-only operations.                                                *)
(*                                                                          *)
(* A cell is a parameter object.  Its value is a token; tokens 0 and 1 lie  *)
(* inside the parameter's box, token 2 below and token 3 above it.          *)
EXTENDS Common, Randomization
CONSTANTS NMat, MaxFilm, MaxModel, MaxData, MaxObj, MaxLayers, NP, MaxPts, MaxOps, Ops, Sim, MaxCells,
          Seeded,  \* start with a dataset and an objective
          Starts,  \* ... of {"one", "twin", "pair"}: one objective; two datasets of different conventions and
                   \* objectives over both that share a model; two models that share a film
          Looks    \* kinds of read-only operations
VARIABLES cell, mat, film, model, data, obj, hist
vars == <<cell, mat, film, model, data, obj, hist>>
world == <<cell, mat, film, model, data, obj>>
Pick(S) == IF Sim /\ S # {} THEN RandomSubset(1, S) ELSE S
Toks == 0..3
NewCell(r) == [role |-> r, tok |-> IF r \in {"vf", "ro"} THEN 2 ELSE 0, vary |-> FALSE, bnd |-> "free", link |-> 0]
Cells(rs) == MapSeq(NewCell, rs)

(* ---------------------------------------------------------- derived state *)
Eff(cl, c) == IF cl[c].link = 0 THEN cl[c].tok ELSE cl[cl[c].link].tok
FilmPars(f) == <<film[f].th>> \o mat[film[f].m] \o <<film[f].ro, film[f].vf>>
ModelPars(m) == <<model[m].off>> \o model[m].front
                \o FoldLeft(LAMBDA acc, f : acc \o FilmPars(f), <<>>, model[m].films) \o model[m].back
Pars(o) == (IF obj[o].ln = 0 THEN <<>> ELSE <<obj[o].ln>>) \o ModelPars(obj[o].m)
Varying(ps) == Distinct(SelectSeq(ps, LAMBDA c : cell[c].vary))
JointPars(os) == FoldLeft(LAMBDA acc, o : acc \o Pars(o), <<>>, os)
\* co-refinement also varies what a parameter of a member follows
JointVarying(ps) == Distinct(SelectSeq([i \in 1..Len(ps) |-> IF cell[ps[i]].link = 0 THEN ps[i] ELSE cell[ps[i]].link],
                                       LAMBDA c : cell[c].vary))
\* tokens that are possible for a kind of bounds
Possible(b) == CASE b = "free" -> Toks [] b = "norm" -> Toks [] b = "box" -> {0, 1}
                 [] b = "low" -> {0, 1, 3} [] b = "high" -> {0, 1, 2}
Feasible(cl, ps) == \A i \in 1..Len(ps) : cl[ps[i]].vary => Eff(cl, ps[i]) \in Possible(cl[ps[i]].bnd)

(* a vector: entry i is token (t + i) mod 4 *)
Entry(t, i) == (t + i) % 4
\* what the cells become when a vector is given for the parameters ps
Given(ps, vs, kind, t) ==
  LET tgt == IF kind = "vary" THEN vs ELSE IF kind = "full" THEN ps ELSE <<>>
  IN FoldLeft(LAMBDA cl, i : [cl EXCEPT ![tgt[i]].tok = Entry(t, i)], cell, [i \in 1..Len(tgt) |-> i])
Kinds == {"none", "vary", "full", "bad"}
\* lengths that are refused
BadLen(ps, vs, n) == n # Len(ps) /\ n # Len(vs)

(* ------------------------------------------------------------------ init *)
EndF == <<1, 2, 3>>
EndB == <<4, 5, 6>>
Ds(x, g) == [pts |-> [i \in 1..MaxPts |-> i], refl |-> x, mask |-> [i \in 1..MaxPts |-> TRUE], gen |-> g]
Ob(m, d, l, x) == [m |-> m, d |-> d, ln |-> l, extra |-> x]
Base == 6 + 3*NMat    \* cells of the end media and materials
Init == /\ mat = [i \in 1..NMat |-> <<7 + 3*(i-1), 8 + 3*(i-1), 9 + 3*(i-1)>>]
        /\ \E start \in Starts, r \in (IF Seeded THEN BOOLEAN ELSE {FALSE}) :
           LET pair == start = "pair" IN
           /\ cell = Cells(<<"th", "ro", "vf", "th", "ro", "vf">>
                        \o FoldLeft(LAMBDA acc, i : acc \o <<"A", "B", "C">>, <<>>, [i \in 1..NMat |-> i])
                        \o <<"th", "ro", "vf", "off">> \o (IF Seeded THEN <<"ln">> ELSE <<>>)
                        \o (IF pair THEN <<"th", "ro", "vf", "off", "ln">> ELSE <<>>))
           /\ film = <<[th |-> Base + 1, m |-> 1, ro |-> Base + 2, vf |-> Base + 3]>>
                     \o (IF pair THEN <<[th |-> Base + 6, m |-> NMat, ro |-> Base + 7, vf |-> Base + 8]>> ELSE <<>>)
           /\ model = <<[off |-> Base + 4, films |-> <<1>>, front |-> EndF, back |-> EndB]>>
                     \o (IF pair THEN <<[off |-> Base + 9, films |-> <<2, 1>>, front |-> EndF, back |-> EndB]>> ELSE <<>>)
           /\ data = IF ~Seeded THEN <<>> ELSE IF start = "one" THEN <<Ds(r, 0)>> ELSE <<Ds(r, 0), Ds(~r, 99)>>
           /\ obj = IF ~Seeded THEN <<>> ELSE LET l == Base + 5 IN
                    CASE start = "one" -> <<Ob(1, 1, l, TRUE)>>
                      [] start = "twin" -> <<Ob(1, 1, l, TRUE), Ob(1, 2, l, FALSE), Ob(1, 2, 0, TRUE), Ob(1, 1, 0, FALSE)>>
                      [] start = "pair" -> <<Ob(1, 1, l, TRUE), Ob(2, 2, Base + 10, FALSE), Ob(2, 1, l, FALSE)>>
        /\ hist = <<[op |-> "init", mat |-> mat, film |-> film, model |-> model, data |-> data, obj |-> obj,
                     cell |-> [c \in 1..Len(cell) |-> [r |-> cell[c].role, t |-> cell[c].tok, v |-> FALSE, b |-> "free"]]]>>
Room == Len(hist) <= MaxOps
On(g) == g \in Ops
Log(r) == hist' = Append(hist, r @@ [cell |-> [c \in 1..Len(cell') |->
             [r |-> cell'[c].role, t |-> Eff(cell', c), v |-> cell'[c].vary, b |-> cell'[c].bnd]]])

(* -------------------------------------------------------------- building *)
AddFilm ==
  /\ On("build") /\ Room /\ Len(film) < MaxFilm
  /\ \E m \in Pick(1..NMat), s \in Pick({0} \cup {c \in 1..Len(cell) : \E f \in 1..Len(film) : film[f].th = c}) :
       LET n == Len(cell)
           th == IF s = 0 THEN n + 1 ELSE s
           k == IF s = 0 THEN n + 1 ELSE n
       IN /\ cell' = cell \o (IF s = 0 THEN Cells(<<"th", "ro", "vf">>) ELSE Cells(<<"ro", "vf">>))
          /\ film' = Append(film, [th |-> th, m |-> m, ro |-> k + 1, vf |-> k + 2])
          /\ UNCHANGED <<mat, model, data, obj>>
          /\ Log([op |-> "film", film |-> film'[Len(film')], pars |-> mat[m]])
Stacks == IF MaxLayers = 1 THEN {<<f>> : f \in 1..Len(film)}
          ELSE {<<f>> : f \in 1..Len(film)} \cup {<<f, g>> : f \in 1..Len(film), g \in 1..Len(film)}
               \cup (IF MaxLayers = 2 THEN {} ELSE {<<f, g, f>> : f \in 1..Len(film), g \in 1..Len(film)})
AddModel ==
  /\ On("build") /\ Room /\ Len(model) < MaxModel
  /\ \E fs \in Pick(Stacks), s \in Pick({0} \cup {model[m].off : m \in 1..Len(model)}) :
       /\ cell' = IF s = 0 THEN cell \o Cells(<<"off">>) ELSE cell
       /\ model' = Append(model, [off |-> IF s = 0 THEN Len(cell) + 1 ELSE s, films |-> fs, front |-> EndF, back |-> EndB])
       /\ UNCHANGED <<mat, film, data, obj>>
       /\ Log([op |-> "model", off |-> model'[Len(model')].off, films |-> fs])
\* the stack of a model is changed in place
Restack ==
  /\ On("restack") /\ Room
  /\ \E m \in Pick(1..Len(model)) : \E fs \in Pick((Stacks \cup {<<>>}) \ {model[m].films}) :
       /\ model' = [model EXCEPT ![m].films = fs]
       /\ UNCHANGED <<cell, mat, film, data, obj>>
       /\ Log([op |-> "restack", m |-> m, films |-> fs])
\* a dataset of the first n points, from the k-th on, wrapping around
PointsFrom(k, n) == [i \in 1..n |-> ((k + i - 2) % NP) + 1]
AddData ==
  /\ On("build") /\ Room /\ Len(data) < MaxData
  /\ \E r \in Pick(BOOLEAN), k \in Pick(1..NP), n \in Pick(1..MaxPts) :
       /\ data' = Append(data, [pts |-> PointsFrom(k, n), refl |-> r, mask |-> [i \in 1..n |-> TRUE], gen |-> Len(hist)])
       /\ UNCHANGED <<cell, mat, film, model, obj>>
       /\ Log([op |-> "data", d |-> data'[Len(data')]])
AddObj ==
  /\ On("build") /\ Room /\ Len(obj) < MaxObj /\ Len(data) > 0
  /\ \E m \in Pick(1..Len(model)), d \in Pick(1..Len(data)), x \in Pick(BOOLEAN),
        l \in Pick({0, -1} \cup {obj[o].ln : o \in 1..Len(obj)}) :
       /\ cell' = IF l = -1 THEN cell \o Cells(<<"ln">>) ELSE cell
       /\ obj' = Append(obj, [m |-> m, d |-> d, ln |-> IF l = -1 THEN Len(cell) + 1 ELSE l, extra |-> x])
       /\ UNCHANGED <<mat, film, model, data>>
       /\ Log([op |-> "obj", o |-> obj'[Len(obj')]])

(* --------------------------------------------------------------- changing *)
Elems(s) == {s[i] : i \in 1..Len(s)}
Used == UNION {Elems(Pars(o)) : o \in 1..Len(obj)}
SetCell ==
  /\ On("set") /\ Room
  /\ \E c \in Pick({c \in Used : cell[c].link = 0}), t \in Pick(Toks) :
       cell' = [cell EXCEPT ![c].tok = t] /\ UNCHANGED <<mat, film, model, data, obj>>
       /\ Log([op |-> "cell", c |-> c])
SetVary ==
  /\ On("set") /\ Room
  /\ \E c \in Pick({c \in Used : cell[c].link = 0}) :
       cell' = [cell EXCEPT ![c].vary = ~@] /\ UNCHANGED <<mat, film, model, data, obj>>
       /\ Log([op |-> "vary", c |-> c])
SetBounds ==
  /\ On("set") /\ Room
  /\ \E c \in Pick(Used), b \in Pick({"free", "box", "low", "high", "norm"}) :
       cell' = [cell EXCEPT ![c].bnd = b] /\ UNCHANGED <<mat, film, model, data, obj>>
       /\ Log([op |-> "bounds", c |-> c])
\* many at once (simulation only): x determines values, flags and bounds
BKinds == <<"free", "box", "low", "high", "norm", "box">>
Bulk ==
  /\ On("set") /\ Sim /\ Room /\ (Len(hist) = 1 \/ Len(hist) % 9 = 0)
  /\ \E x \in Pick(0..9999) :
       /\ cell' = [c \in 1..Len(cell) |-> IF cell[c].link # 0 THEN cell[c]
                    ELSE [cell[c] EXCEPT !.tok = IF ((x * (2*c + 1)) \div 16) % 6 < 4 THEN ((x * (2*c + 1)) \div 16) % 2
                                                 ELSE (((x * (2*c + 1)) \div 16) % 6) - 2,
                                         !.vary = ((x * (c + 3)) \div 8) % 3 = 0,
                                         !.bnd = BKinds[1 + (((x + c * c * 5) \div 3) % 6)]]]
       /\ UNCHANGED <<mat, film, model, data, obj>>
       /\ Log([op |-> "bulk"])
\* c follows t from now on
Targets(c) == {t \in Used \ {c} : cell[t].role = cell[c].role /\ cell[t].link = 0}
Link ==
  /\ On("link") /\ Room
  /\ \E c \in Pick({c \in Used : cell[c].link = 0 /\ ~\E d \in 1..Len(cell) : cell[d].link = c}) :
       \E t \in Pick(Targets(c)) :
         /\ cell' = [cell EXCEPT ![c].link = t, ![c].vary = FALSE]
         /\ UNCHANGED <<mat, film, model, data, obj>>
         /\ Log([op |-> "link", c |-> c, to |-> t])
SetMask ==
  /\ On("data") /\ Room
  /\ \E d \in Pick(1..Len(data)) : \E S \in Pick((SUBSET (1..Len(data[d].pts))) \ {{}}) :
       /\ data' = [data EXCEPT ![d].mask = [i \in 1..Len(data[d].pts) |-> i \in S]]
       /\ UNCHANGED <<cell, mat, film, model, obj>>
       /\ Log([op |-> "mask", d |-> d, mask |-> data'[d].mask])
NewData ==
  /\ On("data") /\ Room
  /\ \E d \in Pick(1..Len(data)), k \in Pick(1..NP), n \in Pick(1..MaxPts) :
       /\ data' = [data EXCEPT ![d] = [@ EXCEPT !.pts = PointsFrom(k, n), !.mask = [i \in 1..n |-> TRUE], !.gen = Len(hist)]]
       /\ UNCHANGED <<cell, mat, film, model, obj>>
       /\ Log([op |-> "assign", d |-> d, new |-> data'[d]])

(* ------------------------------------------------------------- evaluating *)
\* length of a refused vector
BadLens(ps, vs) == {n \in {0, 1, 2, 3, Len(ps) - 1, Len(ps) + 1, Len(vs) + 1} : n >= 0 /\ BadLen(ps, vs, n)}
\* what is known about objective o with cells cl
See(o, cl) == [o |-> o, m |-> obj[o].m, d |-> obj[o].d, ok |-> Feasible(cl, Pars(o)),
               pars |-> Pars(o), vary |-> Varying(Pars(o))]
Quantities == {"residuals", "chisqr", "logl", "logp", "logpost", "setp"}
Eval ==
  /\ On("eval") /\ Room
  /\ \E o \in Pick(1..Len(obj)), q \in Pick(Quantities), k \in Pick(Kinds), t \in Pick(Toks) :
       LET ps == Pars(o) IN
       /\ (k \in {"none", "bad"} => t = 0 \/ Sim)
       /\ cell' = Given(ps, Varying(ps), k, t)
       /\ UNCHANGED <<mat, film, model, data, obj>>
       /\ \E n \in (IF k = "bad" THEN Pick(BadLens(ps, Varying(ps))) ELSE {0}) :
          Log([op |-> "eval", q |-> q, k |-> k, t |-> t, len |-> n, see |-> See(o, cell')])
Predict ==
  /\ On("eval") /\ Room
  /\ \E m \in Pick(1..Len(model)), k \in Pick(Kinds), t \in Pick(Toks) :
       LET ps == ModelPars(m) IN
       /\ (k \in {"none", "bad"} => t = 0 \/ Sim)
       /\ cell' = Given(ps, Varying(ps), k, t)
       /\ UNCHANGED <<mat, film, model, data, obj>>
       /\ \E n \in (IF k = "bad" THEN Pick(BadLens(ps, Varying(ps))) ELSE {0}) :
          Log([op |-> "predict", m |-> m, k |-> k, t |-> t, len |-> n, pars |-> ps, vary |-> Varying(ps)])
\* several objectives at once
Groups == {<<a>> : a \in 1..Len(obj)} \cup {<<a, b>> : a \in 1..Len(obj), b \in 1..Len(obj)}
          \cup {<<a, b, c>> : a \in 1..Len(obj), b \in 1..Len(obj), c \in 1..Len(obj)}
Distinct_(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
Joint ==
  /\ On("joint") /\ Room
  /\ \E os \in Pick({g \in Groups : Distinct_(g)}), q \in Pick(Quantities), k \in Pick(Kinds), t \in Pick(Toks) :
       LET ps == JointPars(os) IN
       /\ (k \in {"none", "bad"} => t = 0 \/ Sim)
       /\ cell' = Given(ps, JointVarying(ps), k, t)
       /\ UNCHANGED <<mat, film, model, data, obj>>
       /\ \E n \in (IF k = "bad" THEN Pick(BadLens(ps, JointVarying(ps))) ELSE {0}) :
          Log([op |-> "joint", q |-> q, k |-> k, t |-> t, len |-> n, os |-> os,
               see |-> [i \in 1..Len(os) |-> See(os[i], cell')], pars |-> ps, vary |-> JointVarying(ps)])
\* read-only operations
\* Looks: of {"covar", "plot", "str", "repr", "prior", "splot", "spsamples", "pgen", "profile", "ellips",
\* "ptstructure", "lists"}
Look ==
  /\ On("look") /\ Room
  /\ \E o \in Pick(1..Len(obj)), w \in Pick(Looks) :
       /\ UNCHANGED world
       /\ Log([op |-> "look", w |-> w, see |-> See(o, cell)])

(* ----------------------------------------------------------------- copies *)
Reach(o) == Elems(Pars(o))
\* the copy of an objective has its own cells, materials, films, model, data
CanCopy(o) == /\ \A c \in Reach(o) : cell[c].link # 0 => cell[c].link \in Reach(o)
              /\ Len(cell) + Cardinality(Reach(o)) <= MaxCells
Copy ==
  /\ On("copy") /\ Room /\ Len(obj) < MaxObj
  /\ \E o \in Pick({p \in 1..Len(obj) : CanCopy(p) /\ obj[p].m <= Len(model)}), how \in Pick({"pickle", "deepcopy"}) :
       LET old == Ascending(Reach(o))
           n == Len(cell)
           At(c) == CHOOSE i \in 1..Len(old) : old[i] = c
           new == [i \in 1..Len(old) |-> [cell[old[i]] EXCEPT !.link = IF @ = 0 THEN 0 ELSE n + At(@)]]
           To(c) == n + At(c)
           md == model[obj[o].m]
           fs == Distinct(md.films)
           ms == Distinct(MapSeq(LAMBDA f : film[f].m, fs))
           FAt(f) == CHOOSE i \in 1..Len(fs) : fs[i] = f
           MAt(m) == CHOOSE i \in 1..Len(ms) : ms[i] = m
       IN
       /\ cell' = cell \o new
       /\ mat' = mat \o MapSeq(LAMBDA m : MapSeq(To, mat[m]), ms)
       /\ film' = film \o MapSeq(LAMBDA f : [th |-> To(film[f].th), m |-> Len(mat) + MAt(film[f].m),
                                             ro |-> To(film[f].ro), vf |-> To(film[f].vf)], fs)
       /\ model' = Append(model, [off |-> To(md.off), films |-> MapSeq(LAMBDA f : Len(film) + FAt(f), md.films),
                                  front |-> MapSeq(To, md.front), back |-> MapSeq(To, md.back)])
       /\ data' = Append(data, data[obj[o].d])
       /\ obj' = Append(obj, [obj[o] EXCEPT !.m = Len(model) + 1, !.d = Len(data) + 1,
                                            !.ln = IF @ = 0 THEN 0 ELSE To(@)])
       /\ Log([op |-> "copy", o |-> o, how |-> how, from |-> old, to |-> [i \in 1..Len(old) |-> n + i],
               fs |-> fs, ms |-> ms])

(* ---------------------------------------------------------------- fitting *)
\* the last operation: where the varying parameters end up is not specified,
\* everything else is
Fit ==
  /\ On("fit") /\ Room
  /\ \E os \in Pick({g \in Groups : Distinct_(g)}), w \in Pick({"least_squares", "L-BFGS-B", "differential_evolution", "sample"}) :
       LET ps == JointPars(os)
           vs == IF Len(os) = 1 THEN Varying(ps) ELSE JointVarying(ps) IN
       /\ vs # <<>> /\ Feasible(cell, ps \o vs)
       /\ UNCHANGED world
       /\ hist' = [i \in 1..(MaxOps + 1) |-> IF i <= Len(hist) THEN hist[i]
                   ELSE IF i = Len(hist) + 1
                   THEN [op |-> "fit", w |-> w, os |-> os, pars |-> ps, vary |-> vs, see |-> See(os[1], cell)]
                   ELSE [op |-> "end"]]

All == \/ AddFilm \/ AddModel \/ AddData \/ AddObj \/ SetCell \/ SetVary \/ SetBounds \/ Link \/ SetMask
       \/ NewData \/ Restack \/ Eval \/ Predict \/ Joint \/ Look \/ Copy \/ Fit
\* in simulation: a few kinds of step, drawn first (cheaper than enumerating all)
Some == \E a \in RandomSubset(3, 1..18 \cup {20}) \cup {19} :
   \/ a = 1 /\ AddFilm
   \/ a = 2 /\ AddModel
   \/ a = 3 /\ AddData
   \/ a = 4 /\ AddObj
   \/ a = 5 /\ SetCell
   \/ a = 6 /\ SetVary
   \/ a = 7 /\ SetBounds
   \/ a = 8 /\ Link
   \/ a = 9 /\ SetMask
   \/ a = 10 /\ NewData
   \/ a \in {11, 17} /\ Joint
   \/ a \in {12, 16} /\ Look
   \/ a = 13 /\ Copy
   \/ a = 14 /\ Len(hist) > MaxOps \div 2 /\ Fit
   \/ a = 15 /\ Bulk
   \/ a = 18 /\ Eval
   \/ a = 20 /\ Restack
   \/ a = 19 /\ Len(hist) = MaxOps /\ Fit
   \/ a = 19 /\ (IF On("eval") THEN (IF Len(hist) % 3 = 0 THEN Predict ELSE Eval)
                 ELSE IF On("look") THEN Look ELSE IF On("joint") THEN Joint ELSE SetCell)
Next == IF ~Sim THEN All ELSE IF Seeded /\ On("set") /\ Len(hist) = 1 THEN Bulk ELSE Some

(* ------------------------------------------------------ design properties *)
\* each varying parameter is listed once
Once == \A o \in 1..Len(obj) : LET v == Varying(Pars(o)) IN \A i, j \in 1..Len(v) : i # j => v[i] # v[j]
\* masks fit their data, objectives refer to what exists
Sound == /\ \A d \in 1..Len(data) : Len(data[d].mask) = Len(data[d].pts)
         /\ \A o \in 1..Len(obj) : obj[o].m <= Len(model) /\ obj[o].d <= Len(data)
         /\ \A c \in 1..Len(cell) : cell[c].link # 0 => ~cell[c].vary /\ cell[cell[c].link].link = 0
\* the joint problem varies what its members vary, each once
JointUnion == \A a, b \in 1..Len(obj) :
   LET v == JointVarying(JointPars(<<a, b>>)) S(s) == {s[i] : i \in 1..Len(s)}
       ext == {cell[c].link : c \in {c \in Used : cell[c].link # 0}} IN
   /\ (S(v) \ ext) = (S(Varying(Pars(a))) \cup S(Varying(Pars(b)))) \ ext
   /\ S(Varying(Pars(a))) \subseteq S(v)
   /\ Len(v) = Cardinality(S(v))
Done_ == hist'[Len(hist')]
Stepped == Len(hist') = Len(hist) + 1
\* a vector sets nothing but the parameters it is for
OnlyNamed == [][Stepped /\ Done_.op = "eval" =>
   \A c \in 1..Len(cell) : cell'[c] # cell[c] =>
      \E i \in 1..Len(Done_.see.pars) : Done_.see.pars[i] = c /\ (Done_.k = "vary" => cell[c].vary)]_vars
RefusedNothing == [][Stepped /\ Done_.op \in {"eval", "joint", "predict"} /\ Done_.k \in {"bad", "none"} => UNCHANGED world]_vars
LookNothing == [][Stepped /\ Done_.op = "look" => UNCHANGED world]_vars
\* data are only changed by operations on data
DataSafe == [][data' # data => Stepped /\ Done_.op \in {"data", "mask", "assign", "copy"}]_vars
\* copying changes nothing that existed
CopySafe == [][Stepped /\ Done_.op = "copy" => SubSeq(cell', 1, Len(cell)) = cell /\ SubSeq(data', 1, Len(data)) = data]_vars

AbsView == <<world, Len(hist)>>
EmitStep == PrintT(ToJson(hist'))
\* (half of the last steps, which TLC enumerates)
EmitDone == (Len(hist) = MaxOps + 1) => (RandomElement(1..2) > 1 \/ PrintT(ToJson(hist)))
=============================================================================
