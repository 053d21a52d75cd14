"""Replays spec/EMA.tla: mixing of two media, exactly and with random media."""
import cmath
import math
from fractions import Fraction

import numpy as np

from . import oracle
from .core import MachineryError, short


def cx(z):
    return complex(float(Fraction(z[0], z[2])), float(Fraction(z[1], z[2])))


def physical_root(e):
    n = cmath.sqrt(e)
    if n.imag < 0 or (n.imag == 0 and n.real < 0):
        n = -n
    return n


T = "C11"


def compare(case, what, got, want, args, tol=1e-8):
    """got: RI from the code; want: permittivity"""
    got = complex(got)
    e = got * got
    case.ensure(abs(e - want) <= tol * (1 + abs(want)), T,
                "{} {} gives eps {}, expected {}", what, args, e, want)
    case.ensure(got.imag >= -1e-9 * (1 + abs(got)), T, "{} {} has gain: {}", what, args, got)


def routes(case, ema, na, nb, f, L, want, tol):
    """Every way the library mixes two materials."""
    from refellips import structureSE as S
    from refellips.dispersion import RI

    rng = case.rng
    args = (ema, na, nb, f, L)
    kw = dict(ema=ema, depolarisation_factor=L)
    case.steps += 1
    got = case.call(T, f"overall_ri{args}", S.overall_ri, na, nb, f, **kw)
    compare(case, "overall_ri", got, want, args, tol)
    scal = complex(got)
    got = case.call(T, f"overall_ri{args}", S.overall_ri, np.complex128(na), np.complex128(nb), vf_B=np.float64(f), **kw)
    compare(case, "overall_ri(numpy)", got, want, args, tol)
    # arrays: material A varies, the fraction varies, both
    other = complex(1.7, 0.3)
    A = case.own(np.array([na, other, na]), "refractive indices")
    F = case.own(np.array([f, 0.25, f]), "volume fractions")
    got = case.call(T, f"overall_ri(arrays){args}", S.overall_ri, A, nb, F, **kw)
    case.verify_owned("overall_ri")
    case.ensure(np.shape(got) == (3,), T, "overall_ri of arrays has shape {}", np.shape(got))
    for i in (0, 2):
        case.ensure(abs(complex(got[i]) - scal) <= 1e-9 * (1 + abs(scal)), T,
                    "overall_ri{}: array gives {}, scalar {}", args, got[i], scal)
    got = case.call(T, f"overall_ri(arrays){args}", S.overall_ri, A, nb, f, **kw)
    case.ensure(np.shape(got) == (3,) and abs(complex(got[0]) - scal) <= 1e-9 * (1 + abs(scal)), T,
                "overall_ri{}: array gives {}, scalar {}", args, got, scal)
    case.verify_owned("overall_ri")
    # a mixed slab and a solvated slab in a structure
    a, b = RI((na.real, na.imag)), RI((nb.real, nb.imag))
    air = RI((1.0, 0.0))
    lay = S.MixedSlabSE(100, a, b, f, 0)
    st = air() | lay | air()
    st.ema = ema
    st.depolarisation_factor = L
    sl = case.call(T, "layer table", st.slabs)
    compare(case, "MixedSlabSE", complex(sl[1, 1], sl[1, 2]), want, args, tol)
    st = S.StructureSE([air(), a(100, 0, f), a(50, 0, 0), air()], solvent=b, ema=ema, depolarisation_factor=L)
    sl = case.call(T, "layer table", st.slabs)
    if f > 0:
        compare(case, "solvated slab", complex(sl[1, 1], sl[1, 2]), want, args, tol)
        compare(case, "solvated slab (fraction 0)", complex(sl[2, 1], sl[2, 2]), na * na, args, tol)
    st = S.StructureSE([air(), a(100, 0, f), b()], ema=ema)
    st.depolarisation_factor = L
    sl = case.call(T, "layer table", st.slabs)
    if f > 0:
        compare(case, "slab solvated by the backing", complex(sl[1, 1], sl[1, 2]), want, args, tol)
    return scal


def replay(case, beh, opts):
    from refellips import structureSE as S

    rng = case.rng
    if opts.get("what") == "media":
        return media(case, beh)
    ea, eb, e = cx(beh["a"]), cx(beh["b"]), cx(beh["e"])
    f, L = cx(beh["f"]).real, cx(beh["L"]).real
    ema = beh["ema"]
    na, nb = physical_root(ea), physical_root(eb)
    # Bruggeman: the specification picked `e`; which root is physical is only
    # determined if the two roots differ
    want = e
    tol = 1e-7
    if ema == "bruggeman" and 0 < L < 1:
        B = ea * (1 - f - L) + eb * (f - L)
        disc = B * B + 4 * (1 - L) * L * ea * eb
        o = -B / (L - 1) - e  # the other root
        if abs(o - e) < 1e-6 * (abs(e) + abs(o)):
            return
        if e.imag == 0 and abs(o.imag) < 1e-12 and not (e.real > o.real):
            return      # transparent media: two real candidates, the positive one counts
        if e.imag < o.imag:
            return
        tol = 1e-7 * (1 + abs(eb) + abs(ea))
    routes(case, ema, na, nb, f, L, want, tol)
    if rng.random() < 0.05:
        bad = rng.choice(["", "Linear", "looyenga", "lin", None])
        case.refused(T, f"ema={bad!r}", (RuntimeError, ValueError), S.overall_ri, na, nb, 0.5, ema=bad)
        st = S.StructureSE()
        for v in (-0.01, 1.01, 2, -1):
            case.refused(T, f"depolarisation_factor={v}", ValueError,
                         setattr, st, "depolarisation_factor", v)
        case.ensure(st.depolarisation_factor == 1 / 3, T, "a refused depolarisation factor was set")


def medium(rng, cls):
    u = rng.uniform
    if cls == "dielectric":
        return complex(u(1, 4), 0)
    if cls == "weak":
        return complex(u(1, 4), 10 ** u(-6, -1))
    if cls == "absorber":
        return complex(u(0.5, 5), u(0.1, 5))
    if cls == "metal":
        return complex(10 ** rng.choice([u(-2, 0.3), u(-4, -2)]), u(1, 9))
    if cls == "void":
        return complex(1, 0)
    raise MachineryError(cls)


def media(case, beh):
    """random passive media of the classes the specification names"""
    rng = case.rng
    na, nb = medium(rng, beh["ca"]), medium(rng, beh["cb"])
    f = {"zero": 0.0, "one": 1.0, "in": rng.uniform(0, 1), "small": 10 ** rng.uniform(-9, -2),
         "big": 1 - 10 ** rng.uniform(-9, -2)}[beh["f"]]
    L = {"zero": 0.0, "one": 1.0, "third": 1 / 3, "in": rng.uniform(0, 1), "half": 0.5}[beh["L"]]
    if beh["same"]:
        nb = na
    ema = beh["ema"]
    if ema == "maxwell-garnett" and beh["ca"] == "dielectric" and beh["cb"] == "metal" and beh["f"] == "in" and 0 < L and \
            not beh["same"] and rng.random() < 0.3:
        # near a plasmon resonance of the inclusions
        ea = na * na
        nb = physical_root(ea + (complex(0, abs(ea) * 10 ** rng.uniform(-5, -2)) - ea) / (L * (1 - f)))
    want = oracle.mix_eps(ema, na * na, nb * nb, f, L)
    tol = 1e-7
    if beh["same"] or beh["f"] in ("zero", "one"):
        want = na * na if beh["same"] or beh["f"] == "zero" else nb * nb
    elif ema == "bruggeman" and 0 < L < 1:
        ea, eb = na * na, nb * nb
        B = ea * (1 - f - L) + eb * (f - L)
        s = cmath.sqrt(B * B + 4 * (1 - L) * L * ea * eb)
        r = sorted([(B + s) / (2 * (1 - L)), (B - s) / (2 * (1 - L))], key=lambda z: z.imag)
        sc = abs(r[0]) + abs(r[1])
        lossy = ea.imag > 0 or eb.imag > 0
        if lossy and r[1].imag - r[0].imag < 1e-12 * sc:
            return          # numerically undecidable which solution is physical
        tol = 1e-7 * (1 + sc) / (1 + abs(want))
    elif ema == "maxwell-garnett":
        ea, eb = na * na, nb * nb
        den = ea + L * (1 - f) * (eb - ea)
        if abs(den) < 1e-6 * (abs(ea) + abs(eb)):
            return
        tol = 1e-9 * (1 + (abs(ea) + abs(eb)) ** 2 / abs(den))
    elif ema == "bruggeman" and L == 1:
        ea, eb = na * na, nb * nb
        den = f * ea + (1 - f) * eb
        if abs(den) < 1e-6 * (abs(ea) + abs(eb)):
            return
        tol = 1e-9 * (1 + (abs(ea) + abs(eb)) ** 2 / abs(den))
    if beh["same"] or beh["f"] in ("zero", "one"):
        # the pure material must come out whatever the rule; Bruggeman with
        # L=1 or MG can be singular only away from the end points
        ea, eb = na * na, nb * nb
        if ema == "maxwell-garnett" and abs(ea + L * (1 - f) * (eb - ea)) < 1e-6 * (abs(ea) + abs(eb)):
            return
        if ema == "bruggeman" and 0 < L < 1 and not beh["same"]:
            # the end point is one root; the other is -L*other/(1-L), physical only
            # if it has more loss: skip those (Bruggeman itself is ambiguous there)
            p, o = (ea, eb) if f == 0 else (eb, ea)
            alt = -L * o / (1 - L)
            if (ea.imag or eb.imag) and alt.imag > p.imag - 1e-12 * (abs(p) + abs(alt)):
                return
            tol = 1e-7 * (1 + abs(p) + abs(alt))
        if ema == "bruggeman" and 0 < L < 1 and beh["same"]:
            tol = 1e-7 * (1 + 2 * abs(ea))
    n = routes(case, ema, na, nb, f, L, want, tol)
    if ema != "maxwell-garnett" and not (ema == "bruggeman" and beh["f"] in ("zero", "one")):
        # no host: exchanging the two media and their fractions
        from refellips import structureSE as S

        m = complex(case.call(T, "overall_ri", S.overall_ri, nb, na, 1 - f, ema=ema, depolarisation_factor=L))
        case.ensure(abs(m * m - n * n) <= 10 * tol * (1 + abs(n * n)) + 1e-6 * (beh["f"] in ("small", "big")), T,
                    "{} mixing depends on the order: {} and {}", ema, n, m)
