"""Replays Optics.tla, Regimes.tla, Points.tla and Rewrite.tla."""
import cmath
import math

import numpy as np

from . import oracle
from .core import short
from .drv_stack import oracle_point, unsafe_zero


def cx(z):
    return complex(z[0] / z[2], z[1] / z[2])


def ang(a, b):
    d = abs(a - b) % 360
    return min(d, 360 - d)


# ------------------------------------------------------------ exact optics
def exact(case, beh, opts):
    """admittances computed by TLC in exact arithmetic"""
    from refellips.reflect_modelSE import Delta_Psi_TMM

    rng = case.rng
    T = "C13"
    es, ep, ys, yp = (cx(beh[k]) for k in ("es", "ep", "ys", "yp"))
    n0, q0 = cx(beh["front"]).real, cx(beh["q0"]).real
    rs, rp = (es - ys) / (es + ys), (yp - ep) / (yp + ep)
    if abs(rs) < 1e-9 or abs(rp) < 1e-9:
        return
    rho = rp / rs
    psi = math.degrees(math.atan(abs(rho)))
    delta = math.degrees(-cmath.phase(rho)) % 360
    # any scale of the indices, any wavelength
    c = rng.choice([1.0, 1 / n0, rng.uniform(0.8, 1.5)])
    lam = rng.choice([500.0, 633, rng.uniform(300, 1500)])
    # sin(theta) = 1 / n0 in units of the lateral wave vector
    aoi = math.degrees(math.asin(1 / n0))
    rows = [[rng.choice([0, 7.0]), n0 * c, rng.choice([0, 0, 0.3]), 0]]
    for l in beh["lay"]:
        n, q = cx(l["n"]) * c, cx(l["q"]) * c
        if l["w"] >= 0:
            d = l["w"] * lam / (4 * q.real) * 10 if l["w"] else 0.0
        else:
            d = rng.choice([25, 60, 400]) * lam / (2 * math.pi * q.imag) * 10
        rows.append([d, n.real, n.imag, rng.choice([0, 5.0])])
    nb = cx(beh["back"]) * c
    rows.append([rng.choice([0, 3.0]), nb.real, nb.imag, rng.choice([0, 5.0])])
    case.steps += 1
    tab = case.own(np.array(rows, float), "layer table")
    reflect = rng.random() < 0.4
    off = rng.choice([0.0, 0.0, 3.25, -17.0])
    others = [rng.uniform(1, 89) for _ in range(rng.randrange(3))]
    aois = case.own(np.array([aoi] + others), "angles")
    got = case.call(T, "Delta_Psi_TMM", Delta_Psi_TMM, aois, tab, lam, off, reflect_delta=reflect)
    case.verify_owned("Delta_Psi_TMM")
    check_range(case, T, got, len(aois), reflect, off)
    if reflect and delta > 180:
        delta = 360 - delta
    tol = 1e-6 + 1e-10 / min(abs(rs), abs(rp))
    g = got[0][0], got[1][0] - off
    ok = abs(g[0] - psi) <= tol and (abs(g[1] - delta) if reflect else ang(g[1], delta)) <= tol
    case.ensure(ok, T, "psi, delta at {} deg, {} nm are {}, exactly {} for layers {}{}", aoi, lam, g, (psi, delta),
                short(rows, 500), " (reflected)" if reflect else "")


def check_range(case, T, got, n, reflect, off, nan_ok=False):
    case.ensure(isinstance(got, tuple) and len(got) == 2 and np.shape(got[0]) == np.shape(got[1]) == (n,), T,
                "prediction of {} points is {}", n, short(got))
    psi, delta = np.asarray(got[0]), np.asarray(got[1]) - off
    if nan_ok:
        psi, delta = psi[~np.isnan(psi)], delta[~np.isnan(delta)]
    case.ensure(np.all(psi >= 0) and np.all(psi <= 90 + 1e-9), T, "psi {} outside [0, 90]", psi)
    e = 1e-9 + 1e-12 * abs(off)
    case.ensure(np.all(delta >= -e) and np.all(delta <= (180 if reflect else 360) + e), T,
                "delta {} (without its offset) outside [0, {}]", delta, 180 if reflect else 360)


# ----------------------------------------------------------------- regimes
def regimes(case, beh, opts):
    from refellips import DataSE, ObjectiveSE, ReflectModelSE
    from refellips.dispersion import RI
    from refellips.reflect_modelSE import Delta_Psi_TMM
    from refellips.structureSE import StructureSE

    rng = case.rng
    T = "C13"
    u = rng.uniform
    med = dict(void=1.0, low=u(1.3, 1.6), dense=u(2.2, 2.6), lossy=complex(u(1.2, 4), u(0.005, 1)),
               metal=complex(rng.choice([u(0.05, 2), u(2, 7)]), rng.choice([u(2, 7), u(7, 20)])))
    med["absorbing"] = complex(med["low"], u(0.01, 2))
    matched = rng.random() < 0.12
    if matched:
        # media that hardly differ: weak reflection, with a definite psi and delta all the same
        base = rng.choice([1.0, u(1.3, 2.5)])
        med = {k: base * (1 + rng.choice([-1, 1]) * 10 ** u(-5.5, -3)) for k in med}
        med["void"] = base
        for k in ("lossy", "metal", "absorbing"):
            med[k] = complex(med[k], 10 ** u(-5.5, -3))
    lam = rng.choice([u(250, 2000), u(250, 2000), 658.0, 532, u(100, 250), 10 ** u(3.3, 4.5)])
    angs = dict(tiny=rng.choice([(0.5, 5), (0.05, 0.5)]), mid=(10, 20), steep=(60, 75),
                grazing=rng.choice([(86, 89.5), (89.5, 89.95)]))
    if beh["angle"] == "critical":
        # just above and just below the critical angle of one of the media
        nf = complex(med[beh["front"]]).real
        c = [x for x in [complex(med[l["m"]]).real for l in beh["lay"] if l["m"] in ("void", "low", "dense")]
             + [complex(med[beh["back"]]).real] if x < nf]
        c = math.degrees(math.asin(rng.choice(c) / nf)) if c else 45.0
        known = [c + 10 ** u(-5, -1), c + rng.choice([-1, 1]) * 10 ** u(-5, 0)]
    else:
        known = [u(*angs[beh["angle"]]) for _ in range(2)]
    extra = [u(20, 60), u(75, 86)]
    off = dict(none=0.0, pos=u(0, 90), neg=-u(0, 90), turns=360.0 * rng.choice([-2, 1, 3]) + u(0, 10))[beh["offset"]]
    reflect = beh["reflect"] and beh["route"] != "model"

    def thick(l):
        m = complex(med[l["m"]])
        if l["d"] == "opaque":
            k = m.imag if l["m"] == "metal" else 1.0
            return rng.choice([30, 200, 1e4]) * lam / (2 * math.pi * k) * 10
        return dict(zero=0.0, thin=rng.choice([u(1, 50), u(0.01, 1)]), mid=u(100, 3000), thick=u(5000, 200000))[l["d"]]

    rows = [(0.0, complex(med[beh["front"]]), 0, 0)] + [(thick(l), complex(med[l["m"]]), 0, 0) for l in beh["lay"]] + \
        [(0.0, complex(med[beh["back"]]), 0, 0)]
    case.steps += 1
    aois = known + extra
    what = f"{beh['route']} route, {short(rows, 500)} at {lam} nm"
    if beh["route"] == "table":
        tab = case.own(np.array([[d if 0 < i < len(rows) - 1 else rng.choice([0, 12.0]), n.real, n.imag, rng.choice([0, 9.0])]
                                 for i, (d, n, _, _) in enumerate(rows)]), "layer table")
        arg = case.own(np.array(aois), "angles")
        psi, delta = got = case.call(T, what, Delta_Psi_TMM, AOI=arg, layers=tab, wavelength=lam, delta_offset=off,
                                     reflect_delta=reflect)
        check_range(case, T, got, len(aois), reflect, off, beh["nothing"])
        linear = True
    else:
        st = StructureSE([RI((n.real, n.imag))(d, rng.choice([0, 4.0])) for d, n, _, _ in rows])
        m = ReflectModelSE(st, delta_offset=off) if rng.random() < 0.5 else ReflectModelSE(st)
        m.delta_offset.value = off
        pts = case.own(np.array([[lam, a] for a in aois]), "points")
        if beh["route"] == "model":
            psi, delta = got = case.call(T, what, m, pts)
            check_range(case, T, got, len(aois), False, off, beh["nothing"])
            linear = True
        else:
            z = np.zeros(len(aois))
            data = DataSE(data=(pts[:, 0], pts[:, 1], z, z), reflect_delta=reflect)
            ob = ObjectiveSE(m, data)
            r = case.call(T, what, ob.residuals)
            case.ensure(np.shape(r) == (2 * len(aois),), "C13 C16", "residuals of {} points have shape {}", len(aois), np.shape(r))
            psi, delta = r[:len(aois)], r[len(aois):]
            linear = False
    case.verify_owned(what)
    if beh["nothing"]:
        return

    def dist(a, b):
        """delta a as reported, b expected"""
        if not linear:
            return abs(a - oracle.circ(b, 0))
        return abs(a - b) if reflect else ang(a, b)

    for i, a in enumerate(aois):
        p, d, tol = oracle_point(rows, lam, a, reflect, off)
        if p is None:
            continue
        if not linear:
            tol = tol + 1e-6
        case.ensure(abs(psi[i] - p) <= tol and dist(delta[i], d) <= tol, T,
                    "{}, {} deg{}: psi, delta {}, expected {}", what, a, " reflected" if reflect else "",
                    (psi[i], delta[i]), (p, d))
        if i < len(known) and not matched:
            if beh["psi45"]:
                case.ensure(abs(psi[i] - 45) < 1e-5 + tol, T, "{}, {} deg: total reflection with psi {}", what, a, psi[i])
            if beh["flat"]:
                d0 = delta[i] - off if linear else None
                if d0 is not None:
                    case.ensure(min(ang(d0, 0), ang(d0, 180)) < 1e-5 + tol, T,
                                "{}, {} deg: bare transparent interface with delta {}", what, a, d0)
    # the offset shifts every delta by exactly its value
    if beh["route"] == "model" and off:
        m.delta_offset.value = 0.0
        p2, d2 = case.call(T, what, m, pts)
        case.ensure(np.array_equal(p2, psi) and np.allclose(d2 + off, delta, rtol=0, atol=1e-9), T,
                    "{}: offset {} turns delta {} into {}", what, off, d2, delta)


# ------------------------------------------------------------------ points
def some_material(rng, name="m", cls=None, clear=False):
    """(material, index(wavelength))"""
    from refellips.dispersion import RI, Cauchy, Lorentz

    u = rng.uniform
    cls = cls or rng.choice(["const", "const", "cauchy", "cauchy", "table", "lorentz", "void", "metal"])
    if cls == "void":
        return (lambda: RI((1.0, 0.0), name=name)), (lambda w: 1 + 0j)
    if cls in ("const", "metal"):
        n = complex(u(1.2, 3), 0 if clear else rng.choice([0, u(0, 1)])) if cls == "const" else complex(u(0.2, 2), u(3, 6))
        return (lambda: RI((n.real, n.imag), name=name)), (lambda w: n)
    if cls == "cauchy":
        A, B, C = u(1.2, 2), u(0, 0.02), u(0, 3e-4)
        return (lambda: Cauchy(A, B, C, name=name)), (lambda w: oracle.cauchy(A, B, C, w))
    if cls == "lorentz":
        a, b, c, e = u(0.5, 8), u(0.1, 1), u(3, 6), u(1, 2)
        return (lambda: Lorentz([a], [b], [c], Einf=e, name=name)), \
            (lambda w: oracle.ri_from_eps(oracle.lorentz_eps([a], [b], [c], e, w)))
    t = np.array([0.3, 0.5, 0.9]), np.array([u(1.2, 3) for _ in range(3)]), np.array([u(0, 2) for _ in range(3)])
    return (lambda: RI([x.copy() for x in t], name=name)), \
        (lambda w: complex(np.interp(w, t[0] * 1000, t[1]), np.interp(w, t[0] * 1000, t[2])))


def points(case, beh, opts):
    from refellips import DataSE, ObjectiveSE, ReflectModelSE
    from refellips.structureSE import StructureSE

    rng = case.rng
    T = "C14"
    nl = rng.randrange(0, 5)
    mats = [some_material(rng, f"m{i}") for i in range(nl + 2)]
    mats[0] = some_material(rng, "f", rng.choice(["void", "void", "cauchy", "const"]))
    integer = rng.random() < 0.3
    close = 10 ** -rng.uniform(3.5, 9) if rng.random() < 0.4 else 0
    thick = [0.0, rng.uniform(1, 100), rng.uniform(100, 5000), 30000.0] + \
        ([10 ** rng.uniform(5, 7)] * 4 if close else [])
    th = [rng.choice(thick) for _ in range(nl + 2)]
    if close and nl:
        # a thick transparent film: its fringes tell close wavelengths apart
        mats[1] = some_material(rng, "film", rng.choice(["const", "cauchy"]), clear=True)
        th[1] = 10 ** rng.uniform(5, 7)
    st = StructureSE([m[0]()(t) for m, t in zip(mats, th)])
    off = rng.choice([0.0, 0.0, 5.5])
    model = ReflectModelSE(st, delta_offset=off)
    wv, av = {}, {}
    negative = rng.random() < 0.1

    def wav(t):
        if t not in wv:
            x = rng.uniform(310, 1000)
            if close and wv:
                x = wv[min(wv)] * (1 + close * t) if not integer else wv[min(wv)] + t
            wv[t] = round(x) if integer else x
            if rng.random() < 0.3 and not close:
                wv[t] = float(rng.choice([400, 500, 633, 658]))
        return wv[t]

    def aoi(t):
        if t not in av:
            x = rng.uniform(20, 85)
            if close and av:
                x = av[min(av)] + 100 * close * t
            if negative:
                x = -x  # (some instruments count angles the other way)
            av[t] = round(x) if integer else x
        return av[t]

    memo = {}

    def expect(w, a):
        if (w, a) not in memo:
            rows = [(t, m[1](w), 0, 0) for m, t in zip(mats, th)]
            p, d, tol = oracle_point(rows, w, a, False, off)
            # the first evaluation of a point fixes its value; the tolerance is
            # that of the conditioning of the point
            memo[w, a] = [None, p, d, tol]
        return memo[w, a]

    for st_ in beh:
        case.steps += 1
        pts = [(wav(w), aoi(a)) for w, a in st_["pts"]]
        if st_["op"] == "mask":
            full = [(wav(w), aoi(a)) for w, a in st_["all"]]
            psi_d = np.array([rng.uniform(0, 90) for _ in full])
            del_d = np.array([rng.uniform(0, 360) for _ in full])
            ds = DataSE(data=(np.array([float(x[0]) for x in full]), np.array([float(x[1]) for x in full]), psi_d, del_d))
            ds.mask = np.array(st_["mask"])
            r = case.call(T, "residuals", ObjectiveSE(model, ds).residuals)
            k = [i for i, f in enumerate(st_["mask"]) if f]
            n = len(k)
            case.ensure(np.shape(r) == (2 * n,), "C14 C16", "residuals of {} of {} points have shape {}", n, len(full), np.shape(r))
            for j, i in enumerate(k):
                e = expect(*full[i])
                if e[1] is None:
                    continue
                ok = abs(r[j] - (e[1] - psi_d[i])) <= e[3] + 1e-9 and abs(r[n + j] - oracle.circ(e[2], del_d[i])) <= e[3] + 1e-9
                case.ensure(ok, "C14 C16", "residuals of point {} of {} (masked dataset) are {}, expected {}", i, len(full),
                            (r[j], r[n + j]), (e[1] - psi_d[i], oracle.circ(e[2], del_d[i])))
            continue
        form = rng.randrange(4)
        arr = np.array(pts, dtype=np.int64 if integer and form == 3 else float)
        if form == 1:
            arr = np.asfortranarray(arr)
        elif form == 2:
            big = np.zeros((2 * len(arr), 3))
            big[::2, :2] = arr
            arr = big[::2, :2]
        elif form == 0 and rng.random() < 0.5:
            arr = [list(map(float, p)) for p in pts]
        case.own(arr, "points")
        res = case.call(T, "model evaluation", model, arr)
        case.ensure(len(res) == 2 and np.shape(res[0]) == np.shape(res[1]) == (len(pts),), T,
                    "prediction of {} points has shapes {}", len(pts), [np.shape(x) for x in res])
        case.verify_owned("model evaluation")
        for i, (w, a) in enumerate(pts):
            e = expect(w, a)
            if e[1] is None:
                continue
            g = float(res[0][i]), float(res[1][i])
            if e[0] is None:
                e[0] = g
            tol = 1e-9 + (e[3] - 1e-6) * 5e-4  # (only rounding may differ)
            ok = abs(g[0] - e[0][0]) <= tol and ang(g[1], e[0][1]) <= tol
            case.ensure(ok, T, "after {}: point ({} nm, {} deg) gives {} in a list of {} points, {} in another list",
                        st_["op"], w, a, g, len(pts), e[0])
            ok = abs(g[0] - e[1]) <= e[3] and ang(g[1], e[2]) <= e[3]
            case.ensure(ok, "C14 C13", "after {}: point {} of {} ({} nm, {} deg) gives {}, expected {}", st_["op"], i,
                        len(pts), w, a, g, (e[1], e[2]))
    if rng.random() < 0.1:
        # the same points within a spectrum
        old = [(p, e) for p, e in memo.items() if e[0] is not None]
        pts = [p for p, _ in old] + [(rng.uniform(310, 1000), rng.uniform(20, 85)) for _ in range(rng.choice([80, 250]))]
        order = list(range(len(pts)))
        rng.shuffle(order)
        res = case.call(T, "model evaluation", model, np.array([pts[i] for i in order], float))
        for j, i in enumerate(order):
            if i < len(old):
                e, g = old[i][1], (float(res[0][j]), float(res[1][j]))
                tol = 1e-9 + (e[3] - 1e-6) * 5e-4
                case.ensure(abs(g[0] - e[0][0]) <= tol and ang(g[1], e[0][1]) <= tol, T,
                            "point {} gives {} in a spectrum of {} points, {} in another list", pts[i], g, len(pts), e[0])


# ----------------------------------------------------------------- rewrite
def rewrite(case, beh, opts):
    from refellips import ReflectModelSE
    from refellips.dispersion import RI
    from refellips.structureSE import MixedSlabSE, SlabSE, StructureSE

    rng = case.rng
    T = "C15"
    NM, big = beh["metal"], beh["big"]
    layers = beh["orig"] + beh["cur"]
    scaled = rng.random() < 0.25
    opaque = any(l["m"] == NM for l in layers)
    mats, idx = {}, {}
    for m in range(1, NM + 1):
        cls = "metal" if m == NM else rng.choice(["const", "void"]) if scaled else None
        if m == beh["front"] and m != NM:
            cls = rng.choice(["void", "const"]) if scaled else rng.choice(["void", "cauchy", "const"])
        mats[m], idx[m] = some_material(rng, f"m{m}", cls, clear=m == beh["front"])
    k = idx[NM](500).imag
    # big units of the metal are opaque at 1000 nm
    unit = rng.uniform(25, 60) * 1000 / (2 * math.pi * k) * 10 / big if opaque else rng.choice(
        [rng.uniform(1, 100), rng.uniform(100, 3000), rng.uniform(0.01, 1)])
    if opaque and rng.random() < 0.2:
        unit *= rng.choice([5, 20])
    ema = rng.choice(["linear", "linear", "maxwell-garnett", "bruggeman"])
    solv = rng.choice([0, rng.randrange(1, NM + 1)])
    objs = {m: f() for m, f in mats.items()}
    wavs = [rng.uniform(310, 1000) for _ in range(2)]
    shared = rng.random() < 0.5

    def mat(m):
        return objs[m] if shared else mats[m]()

    def unsafe(m, o):
        return ema != "linear" and any(unsafe_zero(ema, idx[a](w), idx[b](w), 1 / 3)
                                       for w in wavs for a, b in ((m, o), (o, m)))

    anysolv = [False]

    def make(l, factor):
        m, d, ro, f = l["m"], l["d"] * unit * factor, l["ro"] * rng.choice([1.0, 50.0]), l["f"]
        others = [o for o in range(1, NM + 1) if o != m and not unsafe(m, o)]
        o = rng.choice(others) if others else m
        if f == "same":
            return MixedSlabSE(d, mat(m), mat(m), rng.uniform(0, 1), ro)
        if f == "pureA":
            return MixedSlabSE(d, mat(m), mat(o), 0, ro)
        if f == "pureB":
            return MixedSlabSE(d, mat(o), mat(m), 1, ro)
        if f == "solvself" and m == solv:
            anysolv[0] = True
            return mat(m)(d, ro, rng.uniform(0, 1))
        if f == "solvfull" and m == solv and others:
            anysolv[0] = True
            return mat(o)(d, ro, 1.0)
        if f == "solv0":
            return mat(m)(d, ro, 0)
        if f == "explicit":
            return SlabSE(d, mat(m), ro, name="layer")
        if f == "wrapped" and rng.random() < 0.5:
            n = idx[m](500)
            if n == idx[m](700):
                return RI([[0.2, 0.6, 2.0], [n.real] * 3, [n.imag] * 3])(d, ro)
        return mat(m)(d, ro)

    def end(m):
        r = rng.randrange(3)
        o = mat(m)
        return o() if r == 0 else o(rng.choice([0, 55.0]), rng.choice([0, 3.0])) if r == 1 else SlabSE(0, o, 0)

    def build(front, lay, back, reversed_, factor=1.0, plain=False):
        if not plain and lay and rng.random() < 0.15:
            # one layer as many equal slices of the same material
            j, k = rng.randrange(len(lay)), rng.choice([2, 7, rng.randrange(20, 60)])
            lay = lay[:j] + [dict(lay[j], d=lay[j]["d"] / k, ro=0, f=rng.choice([lay[j]["f"], "slab"])) for _ in range(k)] + lay[j + 1:]
        c = [end(front)] + [make(dict(l, f="slab") if plain else l, factor) for l in lay] + [end(back)]
        if reversed_:
            c.reverse()
        s = StructureSE(c, reverse_structure=bool(reversed_), ema=ema, solvent=mat(solv) if solv else None)
        return s

    case.steps += len(beh["ops"])
    a = build(beh["front"], beh["orig"], beh["ob"], False, plain=True)
    if rng.random() < 0.3 and len(a) > 1:
        # the same with operators
        x = a[0]
        for c_ in a[1:]:
            x = x | c_
        a = x
        a.ema = ema
    f = rng.choice([0.5, 1.7, 3.0]) if scaled else 1.0
    b = build(beh["front"], beh["cur"], beh["cb"], beh["desc"] == "reversed", f)
    if anysolv[0]:
        # rows with fraction 0 go through the mixing formula too
        for l in beh["cur"]:
            if unsafe(l["m"], solv):
                return
    pts = [(w, rng.uniform(20, 85)) for w in wavs for _ in range(2)]
    ma, mb = ReflectModelSE(a), ReflectModelSE(b)
    pa = case.call(T, "model of the original stack", ma, np.array(pts))
    pb = case.call(T, "model of the rewritten stack", mb, np.array([(w * f, x) for w, x in pts]))
    rows = [(0, beh["front"])] + [(l["d"] * unit, l["m"]) for l in beh["orig"]] + [(0, beh["ob"])]
    for i, (w, x) in enumerate(pts):
        r = [(d, idx[m](w), 0, 0) for d, m in rows]
        p, d, tol = oracle_point(r, w, x)
        if p is None:
            continue
        ok = abs(pa[0][i] - pb[0][i]) <= tol and ang(pa[1][i], pb[1][i]) <= tol
        case.ensure(ok, T, "at {} nm, {} deg: {} for {} | {} | {}, {} after {} ({}{}): {}", w, x, (pa[0][i], pa[1][i]),
                    beh["front"], [(l["m"], l["d"]) for l in beh["orig"]], beh["ob"], (pb[0][i], pb[1][i]), beh["ops"],
                    beh["desc"], f", lengths times {f}" if scaled else "",
                    [(l["m"], l["d"], l["f"]) for l in beh["cur"]] + [beh["cb"]])
        ok = abs(pa[0][i] - p) <= tol and ang(pa[1][i], d) <= tol
        case.ensure(ok, "C13", "original stack predicts {}, expected {}", (pa[0][i], pa[1][i]), (p, d))


def replay(case, beh, opts):
    dict(exact=exact, regimes=regimes, points=points, rewrite=rewrite)[opts["what"]](case, beh, opts)
