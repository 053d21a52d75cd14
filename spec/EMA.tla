-------------------------------- MODULE EMA --------------------------------
(* Effective medium mixing over exact Gaussian rationals.                   *)
(* A complex number is <<re, im, den>>, den > 0, of permittivities.          *)
EXTENDS Common
CONSTANTS Re, Im,      \* sets of integers: permittivities re + i im
          FDen, LDen   \* denominators of volume fraction / depolarisation factor
VARIABLES ema, ea, eb, f, L, res, phase
vars == <<ema, ea, eb, f, L, res, phase>>

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Norm(z) == LET g == Gcd(Gcd(Abs(z[1]), Abs(z[2])), z[3])
           IN IF g <= 1 THEN z ELSE <<z[1] \div g, z[2] \div g, z[3] \div g>>
Add(x, y) == Norm(<<x[1]*y[3] + y[1]*x[3], x[2]*y[3] + y[2]*x[3], x[3]*y[3]>>)
Neg(x) == <<-x[1], -x[2], x[3]>>
Sub(x, y) == Add(x, Neg(y))
Mul(x, y) == Norm(<<x[1]*y[1] - x[2]*y[2], x[1]*y[2] + x[2]*y[1], x[3]*y[3]>>)
IsZero(x) == x[1] = 0 /\ x[2] = 0
Inv(x) == LET q == x[1]*x[1] + x[2]*x[2] IN Norm(<<x[1]*x[3], -x[2]*x[3], q>>)
Div(x, y) == Mul(x, Inv(y))
Eq(x, y) == IsZero(Sub(x, y))
Rat(a, b) == Norm(<<a, 0, b>>)
OneC == <<1, 0, 1>>

\* linear: e = (1-f) a + f b
Linear(a, b, g) == Add(Mul(Sub(OneC, g), a), Mul(g, b))
\* Maxwell-Garnett: inclusions b in host a
MGden(a, b, g, l) == Add(a, Mul(Mul(l, Sub(OneC, g)), Sub(b, a)))
MG(a, b, g, l) == Div(Mul(a, Add(a, Mul(Add(Mul(l, Sub(OneC, g)), g), Sub(b, a)))), MGden(a, b, g, l))
\* Bruggeman, solved for the second medium so that the effective medium is e:
\*   (1-f)(a-e)/(e+L(a-e)) + f (b-e)/(e+L(b-e)) = 0
BGq(a, e, g, l) == Div(Mul(Sub(OneC, g), Sub(a, e)), Add(e, Mul(l, Sub(a, e))))
BGden(a, e, g, l) == Add(g, Mul(BGq(a, e, g, l), l))
BGother(a, e, g, l) == Sub(e, Div(Mul(BGq(a, e, g, l), e), BGden(a, e, g, l)))
\* Bruggeman's polynomial (1-L) e^2 - e (a(1-f-L) + b(f-L)) - L a b
BGpoly(a, b, e, g, l) ==
  Sub(Sub(Mul(Sub(OneC, l), Mul(e, e)),
          Mul(e, Add(Mul(a, Sub(Sub(OneC, g), l)), Mul(b, Sub(g, l))))),
      Mul(l, Mul(a, b)))

Eps == {<<r, i, 1>> : r \in Re, i \in Im}
Fr == {Rat(k, FDen) : k \in 0..FDen}
Ls == {Rat(k, LDen) : k \in 0..LDen}

Init == /\ ema \in {"linear", "maxwell-garnett", "bruggeman"}
        /\ ea \in Eps /\ f \in Fr /\ L \in Ls
        /\ eb = <<0, 0, 1>> /\ res = <<0, 0, 1>> /\ phase = "pick"
\* linear / Maxwell-Garnett: pick the second medium, mix
Mix == /\ phase = "pick" /\ ema # "bruggeman"
       /\ eb' \in Eps
       /\ (ema = "maxwell-garnett" => ~IsZero(MGden(ea, eb', f, L)))
       /\ res' = IF ema = "linear" THEN Linear(ea, eb', f) ELSE MG(ea, eb', f, L)
       /\ phase' = "done" /\ UNCHANGED <<ema, ea, f, L>>
\* Bruggeman: pick the effective medium, solve for the second one; only
\* passive second media are of interest
MixBG == /\ phase = "pick" /\ ema = "bruggeman"
         /\ res' \in Eps
         /\ ~IsZero(Add(res', Mul(L, Sub(ea, res'))))
         /\ ~IsZero(BGden(ea, res', f, L))
         /\ eb' = BGother(ea, res', f, L)
         /\ eb'[2] >= 0 /\ ~IsZero(eb')
         /\ (eb'[2] = 0 => eb'[1] > 0)
         /\ ~IsZero(Add(res', Mul(L, Sub(eb', res'))))
         /\ phase' = "done" /\ UNCHANGED <<ema, ea, f, L>>
Next == Mix \/ MixBG

\* Design properties
Done == phase = "done"
F0 == Done /\ IsZero(f) => Eq(res, ea)
F1 == Done /\ Eq(f, OneC) => Eq(res, eb)
Self == Done /\ Eq(ea, eb) => Eq(res, ea)
Passive == Done => res[2] >= 0
Defined == Done /\ ema = "bruggeman" => IsZero(BGpoly(ea, eb, res, f, L))
\* depolarisation 0: parallel (linear) mixing
Parallel == Done /\ IsZero(L) => Eq(res, Linear(ea, eb, f))
\* depolarisation 1: series mixing 1/e = (1-f)/a + f/b
Series == Done /\ Eq(L, OneC) /\ ema # "linear" =>
            Eq(Mul(res, Add(Mul(Sub(OneC, f), eb), Mul(f, ea))), Mul(ea, eb))
\* linear and Bruggeman mixing do not prefer a host
Symmetric == Done /\ ema # "maxwell-garnett" =>
   IF ema = "linear" THEN Eq(res, Linear(eb, ea, Sub(OneC, f)))
   ELSE IsZero(BGpoly(eb, ea, res, Sub(OneC, f), L))

Emit == Done => PrintT(ToJson([ema |-> ema, a |-> ea, b |-> eb, f |-> f, L |-> L, e |-> res]))
=============================================================================
