------------------------------- MODULE Stack -------------------------------
(* Materials, slabs, structures and models: composition, sharing, layer     *)
(* tables, parameters, copies and predictions.                              *)
(*                                                                          *)
(* cell  parameters: [role, tok]; a token stands for a value of that role,  *)
(*       token 0 of a thickness, roughness or fraction is the value 0       *)
(* mat   materials: [kind, ps (cells), src (which concrete material)]       *)
(* comp  components: [kind, a, b (materials), th, ro, vf (cells)]           *)
(* st    structures: [live, seq (components), solv (material or 0), rev,    *)
(*       ema, dp, wav (tokens, 0 = not set)]                                *)
EXTENDS Common, Randomization
CONSTANTS Handles, NM,          \* structures, materials available at the start
          MaxLen, MaxComp, MaxTok, MaxOps, Sim, Ops
VARIABLES cell, mat, comp, st, hist
vars == <<cell, mat, comp, st, hist>>
Pick(S) == IF Sim /\ S # {} THEN RandomSubset(1, S) ELSE S

Kinds == <<"const", "cauchy", "const", "lorentz", "table", "cauchy">>
KindOf(s) == Kinds[((s - 1) % Len(Kinds)) + 1]
RolesOf(k) == CASE k = "cauchy" -> <<"A", "B", "C">>
                [] k = "lorentz" -> <<"Am", "Br", "En", "Einf">>
                [] OTHER -> <<>>
\* cells of the materials 1..NM, in order
MatCells(s) == LET F[i \in 0..s] == IF i = 0 THEN 0 ELSE F[i-1] + Len(RolesOf(KindOf(i))) IN F[s]
Init ==
  /\ cell = FlattenSeq([s \in 1..NM |-> [i \in 1..Len(RolesOf(KindOf(s))) |->
                         [role |-> RolesOf(KindOf(s))[i], tok |-> s]]])
  /\ mat = [s \in 1..NM |-> [kind |-> KindOf(s), src |-> s,
              ps |-> [i \in 1..Len(RolesOf(KindOf(s))) |-> MatCells(s - 1) + i]]]
  /\ comp = <<>>
  /\ st = [h \in Handles |-> [live |-> FALSE, seq |-> <<>>, solv |-> 0, rev |-> FALSE,
                              ema |-> "linear", dp |-> 0, wav |-> 0]]
  /\ hist = <<>>

Default(seq) == [live |-> TRUE, seq |-> seq, solv |-> 0, rev |-> FALSE, ema |-> "linear",
                 dp |-> 0, wav |-> 0]
Live == {h \in Handles : st[h].live}
Room(op) == op \in Ops /\ Len(hist) < MaxOps
Mats == 1..Len(mat)
Comps == 1..Len(comp)
Sets == UNION {Handles}

-----------------------------------------------------------------------------
\* what can be observed of structure x, given tables cs, ms, ls
EndsOk(x, cs) == Len(x.seq) = 0 \/ (cs[x.seq[1]].kind = "slab" /\ cs[x.seq[Len(x.seq)]].kind = "slab")
\* the layer table, in terms of components
Row(x, cs, i) ==
  LET N == Len(x.seq)
      o == IF x.rev THEN N + 1 - i ELSE i
      c == x.seq[o]
      inner == i > 1 /\ i < N
  IN [c |-> c,
      \* roughness belongs to the interface with the previous row
      ro |-> IF ~x.rev THEN c ELSE IF i = 1 THEN 0 ELSE x.seq[o + 1],
      \* 0: not mixed; > 0 material; < 0: the component that ends up last
      by |-> IF ~inner \/ cs[c].kind = "mixed" THEN 0
             ELSE IF x.solv # 0 THEN x.solv
             ELSE -x.seq[IF x.rev THEN 1 ELSE N]]
Table(x, cs) == [i \in 1..Len(x.seq) |-> Row(x, cs, i)]
\* all parameters, in the order in which they are listed
CompPars(c, cs, ms) == LET k == cs[c] IN
   IF k.kind = "slab" THEN <<k.th>> \o ms[k.a].ps \o <<k.ro, k.vf>>
   ELSE <<k.th>> \o ms[k.a].ps \o ms[k.b].ps \o <<k.vf, k.ro>>
Pars(x, cs, ms) == FlattenSeq([i \in 1..Len(x.seq) |-> CompPars(x.seq[i], cs, ms)])
                   \o (IF x.solv = 0 THEN <<>> ELSE ms[x.solv].ps)

Obs(x, cs, ms) == [live |-> x.live, seq |-> x.seq, ok |-> EndsOk(x, cs),
   rows |-> IF EndsOk(x, cs) THEN Table(x, cs) ELSE <<>>,
   pars |-> IF \E i \in 1..Len(x.seq) : cs[x.seq[i]].sw THEN <<0>> ELSE Pars(x, cs, ms), solv |-> x.solv, rev |-> x.rev, ema |-> x.ema, dp |-> x.dp, wav |-> x.wav]
Log(r) == hist' = Append(hist, r @@ [obs |-> [h \in {g \in Handles : st'[g].live} |-> Obs(st'[h], comp', mat')],
                                    cell |-> cell', comp |-> comp', mat |-> mat'])

-----------------------------------------------------------------------------
\* Making components
NewCells(roles, toks) == [i \in 1..Len(roles) |-> [role |-> roles[i], tok |-> toks[i]]]
Toks == 0..MaxTok
SharedTh == {0} \cup {comp[c].th : c \in Comps}   \* 0: a new parameter
MkSlab == /\ Room("mk") /\ Len(comp) < MaxComp
  /\ \E m \in Pick(Mats), t \in Pick(Toks), r \in Pick(Toks), v \in Pick(Toks), sh \in Pick(SharedTh),
       how \in Pick({"call", "class"}) :
     LET n == Len(cell) IN
     /\ cell' = cell \o (IF sh = 0 THEN NewCells(<<"th", "ro", "vf">>, <<t, r, v>>)
                         ELSE NewCells(<<"ro", "vf">>, <<r, v>>))
     /\ comp' = Append(comp, [kind |-> "slab", sw |-> FALSE, a |-> m, b |-> 0,
                   th |-> IF sh = 0 THEN n + 1 ELSE sh,
                   ro |-> IF sh = 0 THEN n + 2 ELSE n + 1,
                   vf |-> IF sh = 0 THEN n + 3 ELSE n + 2])
     /\ UNCHANGED <<mat, st>>
     /\ Log([op |-> "slab", how |-> how, c |-> Len(comp')])
MkMixed == /\ Room("mk") /\ Len(comp) < MaxComp
  /\ \E a \in Pick(Mats), b \in Pick(Mats), t \in Pick(Toks), r \in Pick(Toks), v \in Pick(Toks) :
     LET n == Len(cell) IN
     /\ cell' = cell \o NewCells(<<"th", "vf", "ro">>, <<t, v, r>>)
     /\ comp' = Append(comp, [kind |-> "mixed", sw |-> FALSE, a |-> a, b |-> b, th |-> n + 1, vf |-> n + 2, ro |-> n + 3])
     /\ UNCHANGED <<mat, st>>
     /\ Log([op |-> "mixed", c |-> Len(comp')])

\* Operands of composition: a component, a structure, or a bare material
Operands == [k : {"comp"}, i : Comps, h : {""}] \cup [k : {"mat"}, i : Mats, h : {""}]
            \cup [k : {"st"}, i : {0}, h : Live]
\* the components an operand contributes, where n components exist already
Items(o, n) == CASE o.k = "comp" -> <<o.i>> [] o.k = "st" -> st[o.h].seq [] OTHER -> <<n + 1>>
Bare(o) == IF o.k = "mat" THEN <<o.i>> ELSE <<>>
\* fresh zero slabs for the bare materials ms
Zeros(ms) == [i \in 1..Len(ms) |-> [kind |-> "slab", sw |-> FALSE, a |-> ms[i], b |-> 0,
      th |-> Len(cell) + 3 * i - 2, ro |-> Len(cell) + 3 * i - 1, vf |-> Len(cell) + 3 * i]]
ZeroCells(ms) == FlattenSeq([i \in 1..Len(ms) |-> NewCells(<<"th", "ro", "vf">>, <<0, 0, 0>>)])
AddBare(ms) == /\ comp' = comp \o Zeros(ms) /\ cell' = cell \o ZeroCells(ms) /\ UNCHANGED mat

\* sequences of n components (one at random when simulating)
PickList(n) == IF ~Sim THEN [1..n -> Comps]
  ELSE UNION {UNION {UNION {UNION {UNION {{SubSeq(<<a, b, c, d, e, a>>, 1, Min2(n, 6))}
         : a \in Pick(Comps)} : b \in Pick(Comps)} : c \in Pick(Comps)} : d \in Pick(Comps)} : e \in Pick(Comps)}
FromList == /\ Room("compose") /\ Len(comp) > 0
  /\ \E h \in Pick(Handles), n \in Pick(0..MaxLen) : \E s \in PickList(n) :
       /\ st' = [st EXCEPT ![h] = Default(s)] /\ UNCHANGED <<cell, mat, comp>>
       /\ Log([op |-> "list", h |-> h, items |-> s])
\* h := x | y
OrOp == /\ Room("compose")
  /\ \E h \in Pick(Handles), x \in Pick(Operands), y \in Pick(Operands) :
       LET sx == Items(x, Len(comp))
           sy == Items(y, Len(comp) + Len(Bare(x)))
       IN /\ Len(sx) + Len(sy) <= MaxLen
          /\ st' = [st EXCEPT ![h] = Default(sx \o sy)]
          /\ AddBare(Bare(x) \o Bare(y))
          /\ Log([op |-> "or", h |-> h, x |-> x, y |-> y])
\* h := x | y | z
Or3 == /\ Room("compose")
  /\ \E h \in Pick(Handles), x \in Pick(Operands), y \in Pick(Operands), z \in Pick(Operands) :
       LET bx == Bare(x) by == Bare(y) bz == Bare(z)
           s == Items(x, Len(comp)) \o Items(y, Len(comp) + Len(bx)) \o Items(z, Len(comp) + Len(bx) + Len(by))
       IN /\ Len(s) <= MaxLen
          /\ st' = [st EXCEPT ![h] = Default(s)]
          /\ AddBare(bx \o by \o bz)
          /\ Log([op |-> "or3", h |-> h, x |-> x, y |-> y, z |-> z])
\* h := front material | components | backing material
Sandwich == /\ Room("compose") /\ Len(comp) > 0 /\ MaxLen >= 3
  /\ \E h \in Pick(Handles), a \in Pick(Mats), b \in Pick(Mats), n \in Pick(0..Min2(4, MaxLen - 2)) : \E s \in PickList(n) :
       /\ st' = [st EXCEPT ![h] = Default(<<Len(comp) + 1>> \o s \o <<Len(comp) + 2>>)]
       /\ AddBare(<<a, b>>)
       /\ Log([op |-> "sandwich", h |-> h, a |-> a, b |-> b, items |-> s])
\* h |= y, h.append(y)
IOr == /\ Room("compose") /\ Live # {}
  /\ \E h \in Pick(Live), y \in Pick(Operands), how \in Pick({"ior", "append"}) :
       LET s == Items(y, Len(comp))
       IN /\ Len(st[h].seq) + Len(s) <= MaxLen
          /\ (how = "append" => y.k # "st")
          /\ st' = [st EXCEPT ![h].seq = @ \o s]
          /\ AddBare(Bare(y))
          /\ Log([op |-> how, h |-> h, y |-> y])
\* the same thing twice in a row: a bare material becomes two slabs
Twice == /\ Room("compose") /\ Live # {}
  /\ \E h \in Pick(Live), y \in Pick(Operands), how \in Pick({"ior", "append"}) :
       LET s == Items(y, Len(comp)) \o (IF y.k = "mat" THEN <<Len(comp) + 2>> ELSE IF y.k = "st" /\ y.h = h THEN st[h].seq \o st[h].seq ELSE Items(y, Len(comp)))
       IN /\ Len(st[h].seq) + Len(s) <= MaxLen
          /\ (how = "append" => y.k # "st")
          /\ st' = [st EXCEPT ![h].seq = @ \o s]
          /\ AddBare(Bare(y) \o Bare(y))
          /\ Log([op |-> "twice", how |-> how, h |-> h, y |-> y])
Extend == /\ Room("compose") /\ Live # {} /\ Len(comp) > 0
  /\ \E h \in Pick(Live), n \in Pick(0..3) : \E s \in PickList(n) :
       /\ Len(st[h].seq) + n <= MaxLen
       /\ st' = [st EXCEPT ![h].seq = @ \o s] /\ UNCHANGED <<cell, mat, comp>>
       /\ Log([op |-> "extend", h |-> h, items |-> s])
Insert == /\ Room("compose") /\ Live # {} /\ Len(comp) > 0
  /\ \E h \in Pick(Live) : \E i \in Pick(0..Len(st[h].seq)), c \in Pick(Comps) :
       /\ Len(st[h].seq) < MaxLen
       /\ st' = [st EXCEPT ![h].seq = SubSeq(@, 1, i) \o <<c>> \o SubSeq(@, i + 1, Len(@))]
       /\ UNCHANGED <<cell, mat, comp>>
       /\ Log([op |-> "insert", h |-> h, i |-> i, c |-> c])
SetItem == /\ Room("compose") /\ {h \in Live : Len(st[h].seq) > 0} # {} 
  /\ \E h \in Pick({g \in Live : Len(st[g].seq) > 0}) : \E i \in Pick(1..Len(st[h].seq)), c \in Pick(Comps) :
       /\ st' = [st EXCEPT ![h].seq[i] = c] /\ UNCHANGED <<cell, mat, comp>>
       /\ Log([op |-> "setitem", h |-> h, i |-> i, c |-> c])
Pop == /\ Room("compose") /\ {h \in Live : Len(st[h].seq) > 0} # {}
  /\ \E h \in Pick({g \in Live : Len(st[g].seq) > 0}) : \E i \in Pick(1..Len(st[h].seq)) :
       /\ st' = [st EXCEPT ![h].seq = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@))]
       /\ UNCHANGED <<cell, mat, comp>>
       /\ Log([op |-> "pop", h |-> h, i |-> i])
Slice == /\ Room("compose") /\ Live # {}
  /\ \E h \in Pick(Handles), g \in Pick(Live) : \E i \in Pick(0..Len(st[g].seq)) : \E j \in Pick(i..Len(st[g].seq)) :
       /\ st' = [st EXCEPT ![h] = Default(SubSeq(st[g].seq, i + 1, j))]
       /\ UNCHANGED <<cell, mat, comp>>
       /\ Log([op |-> "slice", h |-> h, g |-> g, i |-> i, j |-> j])
\* h := x | (c * n) | y    (n = 0: nothing, n = 1: the component itself)
Repeat == /\ Room("compose") /\ Len(comp) > 0
  /\ \E h \in Pick(Handles), x \in Pick(Comps), c \in Pick(Comps), n \in Pick(0..4), y \in Pick(Comps) :
       /\ n + 2 <= MaxLen
       /\ st' = [st EXCEPT ![h] = Default(<<x>> \o [i \in 1..n |-> c] \o <<y>>)]
       /\ UNCHANGED <<cell, mat, comp>>
       /\ Log([op |-> "repeat", h |-> h, x |-> x, c |-> c, n |-> n, y |-> y])
\* things that are not components
Refuse == /\ Room("refuse") /\ Live # {}
  /\ \E h \in Pick(Live), how \in Pick({"append", "ior", "or", "solvent", "slab", "dp", "model"}) :
       /\ UNCHANGED <<cell, mat, comp, st>>
       /\ Log([op |-> "refuse", h |-> h, how |-> how])

-----------------------------------------------------------------------------
\* Settings and values
SetCell == /\ Room("values") /\ Len(cell) > 0
  /\ \E c \in Pick(1..Len(cell)), t \in Pick(Toks) :
       /\ cell' = [cell EXCEPT ![c].tok = t] /\ UNCHANGED <<mat, comp, st>>
       /\ Log([op |-> "cell", c |-> c])
\* another material for a component (what its parameter list then holds is
\* left open: sw)
Swap == /\ Room("swap") /\ Len(comp) > 0
  /\ \E c \in Pick(Comps), m \in Pick(Mats), second \in Pick(BOOLEAN) :
       /\ comp' = [comp EXCEPT ![c] = IF second /\ @.kind = "mixed" THEN [@ EXCEPT !.b = m, !.sw = TRUE]
                                     ELSE [@ EXCEPT !.a = m, !.sw = TRUE]]
       /\ UNCHANGED <<cell, mat, st>>
       /\ Log([op |-> "swap", c |-> c])
SetRev == /\ Room("settings") /\ Live # {}
  /\ \E h \in Pick(Live), b \in Pick(BOOLEAN) :
       /\ st' = [st EXCEPT ![h].rev = b] /\ UNCHANGED <<cell, mat, comp>>
       /\ Log([op |-> "rev", h |-> h])
SetSolv == /\ Room("settings") /\ Live # {}
  /\ \E h \in Pick(Live), m \in Pick(0..Len(mat)) :
       /\ st' = [st EXCEPT ![h].solv = m] /\ UNCHANGED <<cell, mat, comp>>
       /\ Log([op |-> "solv", h |-> h])
SetEma == /\ Room("settings") /\ Live # {}
  /\ \E h \in Pick(Live), e \in Pick({"linear", "maxwell-garnett", "bruggeman"}), d \in Pick(0..2) :
       /\ st' = [st EXCEPT ![h].ema = e, ![h].dp = d] /\ UNCHANGED <<cell, mat, comp>>
       /\ Log([op |-> "ema", h |-> h])
SetWav == /\ Room("settings") /\ Live # {}
  /\ \E h \in Pick(Live), w \in Pick(0..MaxTok) :
       /\ st' = [st EXCEPT ![h].wav = w] /\ UNCHANGED <<cell, mat, comp>>
       /\ Log([op |-> "wav", h |-> h])

\* Predictions: psi and delta of a structure at some points (wavelength tokens,
\* angle tokens); the prediction is a function of the present state alone
Able(h) == st[h].live /\ Len(st[h].seq) >= 2 /\ EndsOk(st[h], comp)
Points(n) == [1..n -> [w : 1..MaxTok, a : 1..MaxTok]]
Eval == /\ Room("eval") /\ {h \in Handles : Able(h)} # {}
  /\ \E h \in Pick({g \in Handles : Able(g)}), n \in Pick(1..2), how \in Pick({"kept", "new"}) :
     \E pts \in Pick(Points(n)) :
       /\ UNCHANGED <<cell, mat, comp, st>>
       /\ Log([op |-> "eval", h |-> h, pts |-> pts, how |-> how])

-----------------------------------------------------------------------------
\* Copies.  A shallow copy shares the components; a deep copy has its own
\* components, materials, solvent and parameters, shared among themselves in
\* the same way as in the original.
Range_(s) == {s[i] : i \in 1..Len(s)}
Copy == /\ Room("copy") /\ Live # {}
  /\ \E h \in Pick(Handles), g \in Pick(Live) :
       /\ h # g /\ st' = [st EXCEPT ![h] = st[g]] /\ UNCHANGED <<cell, mat, comp>>
       /\ Log([op |-> "copy", h |-> h, g |-> g])
Pos(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
DeepCopy == /\ Room("copy") /\ Live # {}
  /\ \E h \in Pick(Handles), g \in Pick(Live), how \in Pick({"deepcopy", "pickle"}) :
       LET x == st[g]
           cs == Distinct(x.seq)                      \* components to copy
           ms == Distinct(FlattenSeq([i \in 1..Len(cs) |->
                    IF comp[cs[i]].kind = "slab" THEN <<comp[cs[i]].a>>
                    ELSE <<comp[cs[i]].a, comp[cs[i]].b>>])
                    \o (IF x.solv = 0 THEN <<>> ELSE <<x.solv>>))
           ls == Distinct(FlattenSeq([i \in 1..Len(cs) |-> <<comp[cs[i]].th, comp[cs[i]].ro, comp[cs[i]].vf>>])
                    \o FlattenSeq([i \in 1..Len(ms) |-> mat[ms[i]].ps]))
           NC(c) == Len(comp) + Pos(cs, c)
           NMt(m) == IF m = 0 THEN 0 ELSE Len(mat) + Pos(ms, m)
           NL(l) == Len(cell) + Pos(ls, l)
       IN /\ h # g /\ Len(comp) + Len(cs) <= 3 * MaxComp
          /\ cell' = cell \o [i \in 1..Len(ls) |-> cell[ls[i]]]
          /\ mat' = mat \o [i \in 1..Len(ms) |-> [mat[ms[i]] EXCEPT !.ps = [j \in 1..Len(@) |-> NL(@[j])]]]
          /\ comp' = comp \o [i \in 1..Len(cs) |-> LET c == comp[cs[i]] IN
                [c EXCEPT !.a = NMt(@), !.b = NMt(@), !.th = NL(@), !.ro = NL(@), !.vf = NL(@)]]
          /\ st' = [st EXCEPT ![h] = [x EXCEPT !.seq = [i \in 1..Len(@) |-> NC(@[i])], !.solv = NMt(@)]]
          /\ Log([op |-> "deep", how |-> how, h |-> h, g |-> g])

Next == \/ MkSlab \/ MkMixed \/ FromList \/ Sandwich \/ OrOp \/ Or3 \/ IOr \/ Twice \/ Extend \/ Insert \/ SetItem \/ Pop
        \/ Slice \/ Repeat \/ Refuse \/ SetCell \/ SetRev \/ SetSolv \/ SetEma \/ SetWav
        \/ Swap \/ Eval \/ Copy \/ DeepCopy

-----------------------------------------------------------------------------
\* Design properties
TypeOK == /\ \A c \in Comps : /\ comp[c].a \in Mats
                              /\ {comp[c].th, comp[c].ro, comp[c].vf} \subseteq 1..Len(cell)
          /\ \A h \in Live : /\ Range_(st[h].seq) \subseteq Comps /\ st[h].solv \in 0..Len(mat)
\* reversing twice is the identity; a roughness stays with its interface
RowsOk == \A h \in Live : EndsOk(st[h], comp) =>
   LET x == st[h]
       N == Len(x.seq)
       f == Table([x EXCEPT !.rev = FALSE], comp)
       b == Table([x EXCEPT !.rev = TRUE], comp)
   IN /\ \A i \in 1..N : f[i].c = b[N + 1 - i].c
      \* interface between rows i-1 and i of the forward table
      /\ \A i \in 2..N : f[i].ro = b[N + 2 - i].ro
      \* the fronting and the backing are never mixed
      /\ N > 0 => f[1].by = 0 /\ f[N].by = 0 /\ b[1].by = 0 /\ b[N].by = 0
      /\ \A i \in 1..N : f[i].by < 0 => -f[i].by = f[N].c
      /\ \A i \in 1..N : b[i].by < 0 => -b[i].by = b[N].c
\* an operand is never changed by an operation on another structure
OneStructure == [][ \A h, g \in Handles : st'[h] # st[h] /\ st'[g] # st[g] => h = g ]_vars
\* only |=, append, extend, insert, setitem, pop and settings change a structure in place;
\* values change only by SetCell
OnlyCells == [][ hist' # hist /\ hist'[Len(hist')].op # "cell" =>
                 \A i \in 1..Len(cell) : cell'[i] = cell[i] ]_vars
ReadOnly == [][ hist' # hist /\ hist'[Len(hist')].op \in {"eval", "refuse"} =>
                 <<cell', mat', comp', st'>> = <<cell, mat, comp, st>> ]_vars
\* a deep copy shares nothing with what existed before
Fresh == [][ hist' # hist /\ hist'[Len(hist')].op = "deep" =>
             LET h == hist'[Len(hist')].h g == hist'[Len(hist')].g IN
               /\ Range_(st'[h].seq) \cap Comps = {}
               /\ Range_(Pars(st'[h], comp', mat')) \cap (1..Len(cell)) = {}
               /\ Len(Pars(st'[h], comp', mat')) = Len(Pars(st[g], comp, mat))
               \* same sharing
               /\ LET p == Pars(st[g], comp, mat) q == Pars(st'[h], comp', mat') IN
                  \A i, j \in 1..Len(p) : (p[i] = p[j]) <=> (q[i] = q[j]) ]_vars

AbsView == <<cell, mat, comp, st, Len(hist)>>
EmitStep == PrintT(ToJson(hist'))
EmitDone == Len(hist) = MaxOps => PrintT(ToJson(hist))
=============================================================================
