----------------------------- MODULE Dispersion -----------------------------
(* Parametric dispersion models.  Parameter values are tokens: slot 0 of a  *)
(* field is the value the model was made with, s > 0 a value set later.      *)
(* The meaning of a model is a bag of oscillators plus scalar parameters.   *)
EXTENDS Common
CONSTANTS Kinds, MaxOsc, MaxTok, MaxOps, Sim, Copies
VARIABLES kind, osc,    \* sequence of oscillators: [a, b, e] parameter tokens
          sc,           \* scalar parameters: tokens
          dflt,         \* token of the default wavelength
          twin,         \* a copy made earlier: its own oscillators, scalars, default
          hist
vars == <<kind, osc, sc, dflt, twin, hist>>
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S

Scalars(k) == CASE k = "cauchy" -> {"A", "B", "C"}
                [] k = "sellmeier" -> {"Am", "En", "P", "Einf"}
                [] k = "lorentz" -> {"Einf"}
                [] k = "gauss" -> {"Einf"}
                [] k = "tauc" -> {"Einf", "Eg"}
                [] OTHER -> {}
HasOsc(k) == k \in {"lorentz", "gauss", "tauc"}
Fields == {"a", "b", "e"}

\* an oscillator is [id, a, b, e]: id its identity, a/b/e value tokens
\* a = -1 stands for amplitude zero
Zero == -1
Fresh(i) == [id |-> i, a |-> 0, b |-> 0, e |-> 0]
Log(r) == hist' = Append(hist, r @@ [osc |-> osc', sc |-> sc', dflt |-> dflt', twin |-> twin'])
Room == Len(hist) < MaxOps

Init == /\ kind \in Kinds
        /\ \E m \in 1..MaxOsc : osc = IF HasOsc(kind) THEN [i \in 1..m |-> Fresh(i)] ELSE <<>>
        /\ sc = [s \in Scalars(kind) |-> 0] /\ dflt = 0 /\ twin = <<>> /\ hist = <<>>

Make == /\ Len(hist) = 0 /\ UNCHANGED <<kind, osc, sc, dflt, twin>> /\ Log([op |-> "make"])
Made == Len(hist) > 0 /\ Room
SetScalar == /\ Made /\ Scalars(kind) # {} /\ \E s \in Pick(Scalars(kind)), t \in Pick(0..MaxTok) :
                 sc' = [sc EXCEPT ![s] = t] /\ UNCHANGED <<kind, osc, dflt, twin>>
                 /\ Log([op |-> "scalar", f |-> s, t |-> t])
SetOsc == /\ Made /\ Len(osc) > 0
          /\ \E i \in Pick(1..Len(osc)), f \in Pick(Fields), t \in Pick(0..MaxTok) :
               osc' = [osc EXCEPT ![i][f] = t] /\ UNCHANGED <<kind, sc, dflt, twin>>
               /\ Log([op |-> "osc", i |-> i, f |-> f, t |-> t])
SetZero == /\ Made /\ Len(osc) > 0
           /\ UNCHANGED <<kind, sc, dflt, twin>>
           /\ \E i \in Pick(1..Len(osc)) : osc' = [osc EXCEPT ![i].a = Zero]
                /\ Log([op |-> "osc", i |-> i, f |-> "a", t |-> Zero])
SetDefault == /\ Made /\ \E t \in Pick(0..MaxTok) : dflt' = t
              /\ UNCHANGED <<kind, osc, sc, twin>> /\ Log([op |-> "default", t |-> dflt'])
\* the same physics described by another object
Rebuild == /\ Made /\ Len(osc) > 1
           /\ \E p \in Pick({q \in [1..Len(osc) -> 1..Len(osc)] :
                              Cardinality({q[i] : i \in 1..Len(osc)}) = Len(osc)}) :
                osc' = [i \in 1..Len(osc) |-> osc[p[i]]]
           /\ UNCHANGED <<kind, sc, dflt, twin>> /\ Log([op |-> "rebuild"])
Eval == /\ Made /\ \E w \in {"one", "many", "default", "complex", "npfloat"} :
          UNCHANGED <<kind, osc, sc, dflt, twin>> /\ Log([op |-> "eval", w |-> w])
Split == /\ Made /\ Len(osc) > 1 /\ UNCHANGED <<kind, osc, sc, dflt, twin>> /\ Log([op |-> "split"])
Refuse == /\ Made /\ HasOsc(kind) /\ UNCHANGED <<kind, osc, sc, dflt, twin>> /\ Log([op |-> "refuse"])
\* a copy: equivalent now, independent from now on
Copy == /\ Copies /\ Made /\ \E how \in Pick({"deepcopy", "pickle"}) :
          /\ twin' = <<[osc |-> osc, sc |-> sc, dflt |-> dflt]>>
          /\ UNCHANGED <<kind, osc, sc, dflt>> /\ Log([op |-> "copy", how |-> how])
\* go on with the copy instead of the original
Exchange == /\ Copies /\ Made /\ twin # <<>>
          /\ osc' = twin[1].osc /\ sc' = twin[1].sc /\ dflt' = twin[1].dflt
          /\ twin' = <<[osc |-> osc, sc |-> sc, dflt |-> dflt]>>
          /\ UNCHANGED kind /\ Log([op |-> "exchange"])
Next == Copy \/ Exchange \/ Make \/ SetScalar \/ SetOsc \/ SetZero \/ SetDefault \/ Rebuild \/ Eval \/ Split \/ Refuse

\* the meaning: set of live oscillators (identity and values) and scalars
Meaning == [bag |-> {o \in Range(osc) : o.a # Zero}, sc |-> sc]
Distinct_ == Cardinality({o.id : o \in Range(osc)}) = Len(osc)
RebuildSame == [][ hist' # hist /\ hist'[Len(hist')].op \in {"rebuild", "eval", "split", "refuse", "default"}
                   => Meaning' = Meaning ]_vars
OnlyOne == [][ hist' # hist /\ hist'[Len(hist')].op \in {"scalar", "osc"}
               => Cardinality({s \in DOMAIN sc : sc'[s] # sc[s]})
                  + Cardinality({i \in 1..Len(osc) : osc'[i] # osc[i]}) <= 1 ]_vars
Independent == [][ hist' # hist /\ hist'[Len(hist')].op \notin {"copy", "exchange"} => twin' = twin ]_vars
AbsView == <<kind, osc, sc, dflt, twin, Len(hist)>>
EmitStep == PrintT(ToJson([kind |-> kind, hist |-> hist']))
EmitDone == Len(hist) = MaxOps => PrintT(ToJson([kind |-> kind, hist |-> hist]))
=============================================================================
