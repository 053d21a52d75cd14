------------------------------- MODULE Optics -------------------------------
(* Reflection of layered media in exact Gaussian rational arithmetic.       *)
(* A complex number is <<re, im, den>>.  Lengths of wave vectors are        *)
(* measured in units of the lateral component, so a medium is given by t:   *)
(*    n = (t + 1/t)/2,  q = (t - 1/t)/2   (n^2 - q^2 = 1)                   *)
(* with q the normal component: t real > 1 for a transparent medium, in     *)
(* the upper half plane for an absorbing one, and on the unit circle for a  *)
(* medium in which the wave is evanescent (total internal reflection).      *)
(* Interior layers are an integer number of quarter waves thick, or opaque. *)
EXTENDS Common
CONSTANTS Fronts, Clear, Lossy, Evan, MaxLayers, MaxQuarter, MaxWaves
\* media used by the configurations
FrontD == {<<2, 0, 1>>, <<3, 0, 1>>, <<5, 0, 1>>}
ClearD == {<<2, 0, 1>>, <<3, 0, 1>>, <<3, 0, 2>>, <<4, 0, 1>>}
ClearS == {<<2, 0, 1>>, <<3, 0, 1>>}
LossyD == {<<2, 1, 1>>, <<1, 2, 1>>, <<0, 3, 1>>}
LossyS == {<<2, 1, 1>>, <<0, 3, 1>>}
EvanD == {<<3, 4, 5>>, <<4, 3, 5>>, <<12, 5, 13>>}
EvanS == {<<3, 4, 5>>, <<4, 3, 5>>}
VARIABLES front, lay, back, done
vars == <<front, lay, back, done>>

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Norm(z) == LET g == Gcd(Gcd(Abs(z[1]), Abs(z[2])), z[3])
           IN IF g <= 1 THEN z ELSE <<z[1] \div g, z[2] \div g, z[3] \div g>>
\* cross-cancelling products keep the integers small
Add(x, y) == LET g == Gcd(x[3], y[3]) a == y[3] \div g b == x[3] \div g
             IN Norm(<<x[1]*a + y[1]*b, x[2]*a + y[2]*b, x[3]*a>>)
Neg(x) == <<-x[1], -x[2], x[3]>>
Sub(x, y) == Add(x, Neg(y))
Content(x) == Gcd(Abs(x[1]), Abs(x[2]))
Mul(x, y) == IF (x[1] = 0 /\ x[2] = 0) \/ (y[1] = 0 /\ y[2] = 0) THEN <<0, 0, 1>> ELSE
             LET g == Gcd(Content(x), y[3]) h == Gcd(Content(y), x[3])
                 u == <<x[1] \div g, x[2] \div g, x[3] \div h>>
                 v == <<y[1] \div h, y[2] \div h, y[3] \div g>>
             IN Norm(<<u[1]*v[1] - u[2]*v[2], u[1]*v[2] + u[2]*v[1], u[3]*v[3]>>)
IsZero(x) == x[1] = 0 /\ x[2] = 0
Inv(x) == LET g == Content(x) u == <<x[1] \div g, x[2] \div g>>
              q == u[1]*u[1] + u[2]*u[2] h == Gcd(x[3], q)
              m == x[3] \div h q2 == q \div h
              \* (x[3]/g) * conj(u)/q
          IN Norm(<<u[1]*m, -u[2]*m, q2*g>>)
Div(x, y) == Mul(x, Inv(y))
Eq(x, y) == IsZero(Sub(x, y))
Half == <<1, 0, 2>>

\* the media: t is given as <<re, im, den>>
N(t) == Mul(Half, Add(t, Inv(t)))
Q(t) == Mul(Half, Sub(t, Inv(t)))
\* admittances
EtaS(t) == Q(t)
EtaP(t) == Div(Mul(N(t), N(t)), Q(t))

\* admittance seen at the top of layers i.. and the backing
Layer(l, y, eta) ==
  CASE l.w = -1 -> eta                       \* opaque: nothing below is seen
    [] l.w % 2 = 0 -> y                      \* half waves, or no thickness
    [] OTHER -> Div(Mul(eta, eta), y)        \* quarter wave
Seen(Eta(_)) == FoldRight(LAMBDA l, y : Layer(l, y, Eta(l.t)), lay, Eta(back))
\* the amplitude reflection coefficients are
\*    r_s = (e - y)/(e + y) with the s admittances e of the front, y seen
\*    r_p = (y - e)/(y + e) with the p admittances
\* (the last division is left to the driver: it does not fit 32 bits)
YS == Seen(EtaS)
YP == Seen(EtaP)

\* an opaque layer screens what lies below unless its lower interface carries
\* a surface wave (the amplitude there is then unbounded)
Below(i, Eta(_)) == FoldRight(LAMBDA l, y : Layer(l, y, Eta(l.t)), SubSeq(lay, i + 1, Len(lay)), Eta(back))
Resonant == \E i \in 1..Len(lay) : lay[i].w = -1 /\
               (IsZero(Add(EtaS(lay[i].t), Below(i, EtaS))) \/ IsZero(Add(EtaP(lay[i].t), Below(i, EtaP))))
Quarters == Cardinality({i \in 1..Len(lay) : lay[i].w % 2 = 1})
Init == /\ front \in Fronts /\ lay = <<>> /\ back = <<0, 0, 1>> /\ done = FALSE
Grow == /\ ~done /\ Len(lay) < MaxLayers
        /\ \/ \E t \in Clear, w \in 0..MaxWaves :
                lay' = Append(lay, [t |-> t, w |-> w])
           \/ \E t \in Lossy, w \in {0, -1} : lay' = Append(lay, [t |-> t, w |-> w])
        /\ Cardinality({i \in 1..Len(lay') : lay'[i].w % 2 = 1 /\ lay'[i].w > 0}) <= MaxQuarter
        /\ UNCHANGED <<front, back, done>>
Finish == /\ ~done
          /\ back' \in Clear \cup Lossy \cup Evan
          /\ done' = TRUE /\ UNCHANGED <<front, lay>>
Next == Grow \/ Finish

\* |r| <= 1 exactly if the admittance seen has a non-negative real part
\* (the front's is real and positive), = 1 if it is imaginary
Seens == {YS, YP}
\* passive media reflect at most everything
Passive == done => \A y \in Seens : y[1] >= 0
\* total reflection: nothing absorbs, the backing is evanescent
Total == (done /\ back \in Evan /\ \A i \in 1..Len(lay) : lay[i].w >= 0)
           => \A y \in Seens : y[1] = 0
\* half waves of anything are invisible
Absentee == (done /\ \A i \in 1..Len(lay) : lay[i].w % 2 = 0 /\ lay[i].w >= 0)
           => Eq(YS, EtaS(back)) /\ Eq(YP, EtaP(back))
\* index matched
Matched == (done /\ back = front /\ \A i \in 1..Len(lay) : lay[i].t = front \/ lay[i].w = 0)
           => Eq(YS, EtaS(front)) /\ Eq(YP, EtaP(front))
\* real media away from total reflection: r is real, delta is 0 or 180
RealR == (done /\ back \in Clear /\ \A i \in 1..Len(lay) : lay[i].t \in Clear) => YS[2] = 0 /\ YP[2] = 0

Emit == (done /\ ~Resonant) => PrintT(ToJson([front |-> N(front), q0 |-> Q(front), back |-> N(back),
          lay |-> [i \in 1..Len(lay) |-> [n |-> N(lay[i].t), q |-> Q(lay[i].t), w |-> lay[i].w]],
          es |-> EtaS(front), ep |-> EtaP(front), ys |-> YS, yp |-> YP]))
=============================================================================
