"""Replays RITable.tla, Shipped.tla (C21) and Dispersion.tla (C22)."""
import bisect
import copy
import csv
import os
import pickle
import tempfile
from fractions import Fraction
from pathlib import Path

import numpy as np
from refnx._lib import flatten

from . import oracle
from .core import short


def replay(case, beh, opts):
    {"table": table, "shipped": shipped, "models": models}[opts["what"]](case, beh)


def same_answers(got, want, scale, tol=1e-10):
    got = np.broadcast_to(np.asarray(got, complex), np.shape(want))
    return bool(np.all(np.abs(got - want) <= tol * (scale + np.abs(want))))


# ------------------------------------------------------------- tabulated RI
def table(case, beh):
    from refellips.dispersion import RI

    rng = case.rng
    # abstract integers -> nanometres and refractive index values
    base, step = rng.choice([(100, 100), (250.5, 37.25), (1, 1), (400, 0.5), (632.8, 0.02)])
    scale = 10 ** rng.randint(-4, 0)
    off = rng.choice([0, 0, 1])

    def lam(x):
        return base + step * x

    def val(r):
        return float(Fraction(r[0], r[1])) * scale + off

    def ext(r):
        return float(Fraction(r[0], r[1])) * scale

    tab = beh["tab"]
    form = beh["form"]
    if beh["ord"] == "down":
        tab = tab[::-1]
    elif beh["ord"] == "any":
        tab = rng.sample(tab, len(tab))
    um = [lam(t["l"]) / 1000 for t in tab]
    n = [t["n"] * scale + off for t in tab]
    k = [t["k"] * scale for t in tab]
    d0 = lam(beh["dflt"])
    name = rng.choice(["", "my material"])
    T = "C21"
    if form == "const":
        disp = case.own(rng.choice([lambda: [n[0], k[0]], lambda: (n[0], k[0]),
                                    lambda: np.array([n[0], k[0]])])(), "constant")
    elif form == "arrays":
        disp = tuple(np.array(x, float) for x in (um, n, k))
        for i, x in enumerate(disp):
            case.own(x, f"dispersion column {i}")
        if rng.random() < 0.5:
            disp = list(disp)
        case.own(disp, "dispersion")
    elif form == "lists":
        disp = [list(um), list(n), list(k)]
        for i, x in enumerate(disp):
            case.own(x, f"dispersion column {i}")
        case.own(disp, "dispersion")
    elif form == "matrix":
        disp = case.own(np.array([um, n, k], float), "dispersion matrix")
    else:
        d = tempfile.mkdtemp(prefix="ri", dir=case.scratch)
        nm = rng.choice(["glass", "SiO2_x", "a-b c"])
        p = os.path.join(d, nm + ".csv")
        three = form == "file3"
        with open(p, "w", encoding="utf8", newline=rng.choice(["\n", "\r\n"])) as f:
            f.write(rng.choice(["", "\ufeff"]) + rng.choice(
                ["Wavelength,n,k\n", '"Wavelength, µm",n,k\n', "\n"]))
            for row in zip(um, n, k):
                f.write(",".join(repr(float(x)) for x in row[: 3 if three else 2]) + "\n")
        before = open(p, "rb").read()
        disp = Path(p) if rng.random() < 0.5 else p
    kw = dict(wavelength=d0)
    if name:
        kw["name"] = name
    ri = case.call(T, f"RI from {form}", RI, disp, **kw)
    if form in ("file2", "file3"):
        case.ensure(ri.name == (name or nm), T, "name of a loaded material is {!r}", ri.name)
    rowscale = 1e-9 * (max(n) - min(n) + max(k) - min(k) if n else 0) + 1e-12
    if step < 0.1:
        rowscale = max(n) - min(n) + max(k) - min(k) + 1e-12 if n else 1e-12
    for q in beh["qs"]:
        case.steps += 1
        at = [lam(x) for x in q["at"]]
        want = np.array([complex(val(a["n"]), ext(a["k"])) for a in q["ans"]])
        if q["kind"] == "one":
            w = rng.choice([float, np.float64, lambda x: int(x) if x == int(x) else x])(at[0])
            got = case.call(T, f"{form}.complex({w})", ri.complex, w)
            want = want[0]
            case.ensure(np.ndim(got) == 0, T, "{}: complex({}) is not a number: {}", form, w, got)
        elif q["kind"] == "many":
            w = case.own(np.array(at), "wavelengths")
            got = case.call(T, f"{form}.complex({w})", ri.complex, w)
            case.ensure(np.shape(got) == (3,) or (form == "const" and np.shape(got) == ()), T,
                        "{}: complex of 3 wavelengths has shape {}", form, np.shape(got))
        elif q["kind"] == "default":
            got = case.call(T, f"{form} at the default", lambda: (ri.complex(None), complex(ri), str(ri)))
            case.ensure(got[1] == complex(got[0]), T, "complex(ri) {} is not ri.complex(None) {}", got[1], got[0])
            got = got[0]
            want = want[0]
        else:
            ri.wavelength = at[0]
            got = case.call(T, f"{form} at the default", ri.complex, None)
            want = want[0]
        case.ensure(same_answers(got, want, rowscale), T,
                    "{} table um={} n={} k={}: {} at {} nm gives {}, expected {}", form, um, n, k,
                    q["kind"], at, got, want)
    if form in ("file2", "file3"):
        case.ensure(open(p, "rb").read() == before, "C21 C04", "the material file was changed")
    # used in a slab the same values appear
    if beh["qs"] and len(tab) > 0:
        w = lam(beh["qs"][0]["at"][0])
        s = case.call(T, "slab of a tabulated material", lambda: (ri() | ri(10) | ri()).slabs(wavelength=w))
        r = complex(case.call(T, "complex", ri.complex, w))
        case.ensure(same_answers(s[:, 1] + 1j * s[:, 2], np.full(3, r), 1e-12), T,
                    "layer table of the material has {} not {}", s[:, 1:3], r)
    case.verify_owned("RI")
    # malformed input
    if case.index == 0 and rng.random() < 0.1:
        for bad in (None, (1.0,), (1, 2, 3, 4), ()):
            case.refused(T, f"RI({bad})", (RuntimeError, TypeError, ValueError), RI, bad)
        case.refused(T, "RI of a missing file", OSError, RI, os.path.join(case.scratch, "nope.csv"))


# ---------------------------------------------------------------- shipped
def read_csv(p):
    with open(p, encoding="utf-8-sig", newline="") as f:
        rows = list(csv.reader(f))[1:]
    out = []
    for r in rows:
        r = [x for x in r if x.strip()]
        if r:
            out.append(tuple(float(x) for x in r[:3]) + ((0.0,) if len(r) < 3 else ()))
    return out


def shipped(case, beh):
    import refellips
    from refellips import dispersion

    rng = case.rng
    folder = os.path.join(os.path.dirname(refellips.__file__), "materials")
    names = sorted(f[:-4] for f in os.listdir(folder) if f.endswith(".csv"))
    T = "C21"
    case.ensure(sorted(dispersion.materials) == names, T,
                "materials lists {}, the files are {}", sorted(dispersion.materials), names)
    if beh["mat"] == 0:
        bad = rng.choice(["unobtainium", "Gold", "gold.csv", "", "../materials/gold", " gold"])
        case.refused(T, f"load_material({bad!r})", ValueError, dispersion.load_material, bad)
        return
    name = names[(beh["mat"] - 1) % len(names)]
    rows = read_csv(os.path.join(folder, name + ".csv"))
    rows.sort(key=lambda r: r[0])
    ri = case.call(T, f"load_material({name})", dispersion.load_material, name)
    case.ensure(ri.name == name, T, "load_material({!r}) is called {!r}", name, ri.name)
    # what happens to another one loaded under that name has no influence
    other = case.call(T, f"load_material({name})", dispersion.load_material, name)
    other.wavelength, other.name = rng.uniform(200, 1500), "other"
    case.ensure(ri.name == name, T, "{!r} is called {!r} after renaming another one", name, ri.name)
    wl = [Fraction(repr(r[0])) * 1000 for r in rows]
    m = len(rows)
    for q in beh["qs"]:
        case.steps += 1
        kind = q["q"]["kind"]
        if kind == "below":
            i, w0, w1, den = 0, 1, 0, 1
            at = float(wl[0]) * rng.uniform(0.1, 0.999)
        elif kind == "above":
            i, w0, w1, den = m - 1, 1, 0, 1
            at = float(wl[-1]) * rng.uniform(1.001, 10)
        elif kind == "default":
            at = ri.wavelength
            case.ensure(at == 658, T, "default wavelength of {} is {}", name, at)
            i = max(0, min(m - 2, bisect.bisect_right(wl, Fraction(at)) - 1))
            if m == 1 or at <= wl[0]:
                i, w0, w1, den = 0, 1, 0, 1
            elif at >= wl[-1]:
                i, w0, w1, den = m - 1, 1, 0, 1
            else:
                den = wl[i + 1] - wl[i]
                w1 = Fraction(at) - wl[i]
                w0 = den - w1
        else:
            i = min(q["q"]["r"] * m // 100, m - 1)
            w0, w1 = q["ans"]["w"]
            den = w0 + w1
            if i == m - 1:
                w0, w1, den = 1, 0, 1
            at = float(wl[i] + (wl[i + 1] - wl[i]) * w1 / den) if w1 else float(wl[i])
        j = min(i + 1, m - 1)
        if w1 == 0 and den == 1 and [r[0] for r in rows].count(rows[i][0]) > 1:
            return      # a wavelength listed twice: either value
        f = Fraction(w1) / Fraction(den)
        want = complex(rows[i][1] + float(f) * (rows[j][1] - rows[i][1]),
                       rows[i][2] + float(f) * (rows[j][2] - rows[i][2]))
        arg = None if kind == "default" else at
        got = complex(case.call(T, f"{name}.complex({arg})", ri.complex, arg))
        tol = 1e-7 * (abs(rows[i][1] - rows[j][1]) + abs(rows[i][2] - rows[j][2])) + 1e-10
        case.ensure(abs(got - want) <= tol, T, "{} at {} nm is {}, its file gives {}", name, at, got, want)
        many = case.call(T, f"{name}.complex(array)", ri.complex, np.array([at, at * 1.3, at * 0.8]))
        case.ensure(np.shape(many) == (3,) and abs(many[0] - want) <= tol, T,
                    "{} at [{} ...] nm is {}, its file gives {}", name, at, many, want)


# -------------------------------------------------------- parametric models
def gauss_ok(Am, Br, En, Einf, wav, got):
    """The Gaussian model evaluates a Hilbert transform on a grid (period 40 eV):
    accept the periodic or the exact Kramers-Kronig partner, within the
    resolution of the grid."""
    ex = oracle.gauss_eps(Am, Br, En, Einf, wav)
    tol1 = sum(5e-4 * abs(a) / (b * b) + 1e-4 * abs(a) for a, b in zip(Am, Br)) + 1e-9
    tol2 = sum(4e-4 * abs(a) / (b * b) for a, b in zip(Am, Br)) + 1e-9
    if abs(got.imag - ex.imag) > tol2:
        return False, ex
    if abs(got.real - ex.real) <= tol1:
        return True, ex
    per = oracle.gauss_periodic_e1(Am, Br, En, Einf, wav)
    lo, hi = sorted((per, ex.real))
    return lo - tol1 <= got.real <= hi + tol1, complex(per, ex.imag)


class Model:
    """Concrete values of the tokens of one behaviour."""

    def __init__(self, case, beh):
        self.case, self.kind = case, beh["kind"]
        rng = case.rng
        self.val = {}
        self.big = rng.random() < 0.15      # list of floats vs Parameters
        self.grid = {}

    def scalar(self, f, t):
        key = (f, t)
        if key not in self.val:
            u = self.case.rng.uniform
            v = dict(
                A=lambda: u(1.0, 2.5), B=lambda: u(-0.01, 0.05), C=lambda: u(-1e-4, 1e-3),
                Am=lambda: u(0.2, 3), En=lambda: u(0.01, 0.12), P=lambda: u(0, 0.05),
                Einf=lambda: u(1, 3), Eg=lambda: u(*self.case.rng.choice([(0.3, 1.8), (1.8, 6.5)])))[f]
            self.val[key] = v()
        return self.val[key]

    def osc(self, o, f):
        t = o[f]
        if f == "a" and t == -1:
            return 0.0
        key = (o["id"], f, t)
        if key not in self.val:
            u = self.case.rng.uniform
            k = self.kind
            if f == "a":
                v = u(0.1, 8) if k == "lorentz" else u(0.05, 4) if k == "gauss" else u(5, 150)
            elif f == "b":
                v = u(0.05, 2) if k == "lorentz" else u(0.15, 2.5) if k == "gauss" else u(0.1, 3.8)
                if k == "lorentz" and self.case.rng.random() < 0.07:
                    v = 0.0
            else:
                v = u(0.5, 6) if k != "tauc" else u(2, 6)
                old = [x for q, x in self.val.items() if len(q) == 3 and q[1] == "e"]
                if old and self.case.rng.random() < 0.2:
                    v = self.case.rng.choice(old)  # several oscillators of one energy
            self.val[key] = v
        return self.val[key]

    def wav(self, t):
        key = ("wav", t)
        if key not in self.val:
            self.val[key] = self.case.rng.choice([self.case.rng.uniform(190, 1700), 658.0, 532, 300])
        return self.val[key]

    def lists(self, oscs):
        return [[self.osc(o, f) for o in oscs] for f in "abe"]

    def eps(self, st, oscs, wav):
        k = self.kind
        S = {f: self.scalar(f, t) for f, t in st["sc"].items()} if st["sc"] else {}
        if k in ("const", "table"):
            n, t = self.fixed()
            return (n if k == "const" else complex(np.interp(wav, t[0] * 1000, t[1]), np.interp(wav, t[0] * 1000, t[2]))) ** 2
        if k == "cauchy":
            return oracle.cauchy(S["A"], S["B"], S["C"], wav) ** 2
        if k == "sellmeier":
            return complex(oracle.sellmeier_eps(S["Am"], S["En"], S["P"], S["Einf"], wav))
        a, b, e = self.lists(oscs)
        if k == "lorentz":
            return oracle.lorentz_eps(a, b, e, S["Einf"], wav)
        if k == "gauss":
            return oracle.gauss_eps(a, b, e, S["Einf"], wav)
        return oracle.tauclorentz_eps(a, b, e, S["Eg"], S["Einf"], wav)

    def fixed(self):
        if "fixed" not in self.val:
            u = self.case.rng.uniform
            self.val["fixed"] = complex(u(1, 3), u(0, 2)), (np.array([0.3, 0.5, 0.9]), np.array([u(1.2, 3) for _ in range(3)]),
                                                            np.array([u(0, 2) for _ in range(3)]))
        return self.val["fixed"]

    def make(self, st, oscs):
        from refellips import dispersion as D
        from refnx.analysis import Parameter

        rng = self.case.rng
        S = {f: self.scalar(f, t) for f, t in st["sc"].items()} if st["sc"] else {}
        for f in list(S):
            if rng.random() < 0.5:
                S[f] = Parameter(S[f], "par")
        kw = dict(wavelength=self.wav(st["dflt"]), name=rng.choice(["", "m"]))
        k = self.kind
        if k in ("const", "table"):
            n, t = self.fixed()
            return self.call(D.RI, (n.real, n.imag) if k == "const" else [x.copy() for x in t], **kw)
        if k == "cauchy":
            return self.call(D.Cauchy, S["A"], S["B"], S["C"], **kw)
        if k == "sellmeier":
            return self.call(D.Sellmeier, S["Am"], S["En"], S["P"], Einf=S["Einf"], **kw)
        L = self.lists(oscs)
        form = rng.randrange(4)
        if len(oscs) == 1 and form == 0:
            L = [x[0] for x in L]
        elif form == 1:
            L = [[Parameter(v, "q") for v in x] for x in L]
        elif form == 2:
            L = [tuple(x) for x in L]
        for i, x in enumerate(L):
            if isinstance(x, list):
                self.case.own(x, "oscillator list")
        if k == "lorentz":
            return self.call(D.Lorentz, *L, Einf=S["Einf"], **kw)
        if k == "gauss":
            return self.call(D.Gauss, *L, Einf=S["Einf"], **kw)
        return self.call(D.TaucLorentz, *L, S["Eg"], Einf=S["Einf"], **kw)

    def call(self, f, *a, **k):
        return self.case.call("C22", "making a " + f.__name__, f, *a, **k)

    FIELD = {"lorentz": "Am Br En", "gauss": "Am Br En", "tauc": "Am C En"}


def check_value(case, m, st, oscs, wav, got, what):
    """one refractive index against the oracle"""
    T = "C22 C23"
    got = complex(got)
    if m.kind == "sellmeier":
        e = m.eps(st, oscs, wav)
        if e.real <= 0:
            return
    if m.kind in ("cauchy", "const", "table"):
        w = m.eps(st, oscs, wav) ** 0.5
        case.ensure(abs(got - w) < 1e-10 * abs(w), T, "{} at {} nm: {} not {}", what, wav, got, w)
        return
    if m.kind == "gauss":
        a, b, e = m.lists(oscs)
        ok, w = gauss_ok(a, b, e, m.scalar("Einf", st["sc"]["Einf"]), wav, got * got)
        case.ensure(ok, T, "{} at {} nm: eps {} not {} (A {} B {} E {})", what, wav, got * got, w, a, b, e)
    else:
        w = m.eps(st, oscs, wav)
        tol = 2e-6 if m.kind == "tauc" else 1e-9
        # near a sharp resonance the value is a difference of large terms
        scale = 1.0 + abs(w) + sum(abs(x) for x in m.lists(oscs)[0]) * (1 if m.kind == "tauc" else 0)
        case.ensure(abs(got * got - w) <= tol * scale, T,
                    "{} at {} nm: eps {} not {}", what, wav, got * got, w)
    case.ensure(got.imag >= -1e-12, T, "{} at {} nm has gain: {}", what, wav, got)
    if m.kind == "tauc" and oracle.HC / wav <= m.scalar("Eg", st["sc"]["Eg"]):
        w = got * got
        case.ensure(abs(w.imag) <= 1e-10 * (1 + abs(w)), T, "{} absorbs below its gap: {} at {} nm", what, got, wav)


PARS = dict(cauchy="A B C", sellmeier="Am En P Einf", lorentz="Am Br En Einf", gauss="Am Br En Einf",
            tauc="Am C En Einf Eg", const="", table="")


def listed(case, kind, obj, what):
    """the parameters of a material are those of its formula"""
    want = [id(p) for f in PARS[kind].split() for p in flatten([getattr(obj, f)])]
    got = [id(p) for p in flatten(obj.parameters)]
    case.ensure(sorted(got) == sorted(want), "C17", "{}: lists {} parameters, {} of them its own {}", what, len(got),
                len(set(got) & set(want)), len(want))


def models(case, beh):
    from refellips.structureSE import nm_eV_conversion

    rng = case.rng
    T = "C22 C23"
    m = Model(case, beh)
    hist = beh["hist"]
    obj = twin = None
    st = None
    for step in hist:
        case.steps += 1
        st = step
        oscs = step["osc"]
        op = step["op"]
        what = f"{m.kind} after {op}"
        if op in ("make", "rebuild"):
            obj = m.make(step, oscs)
            case.verify_owned("making a model")
        elif op == "scalar":
            getattr(obj, step["f"]).value = m.scalar(step["f"], step["t"])
        elif op == "osc":
            attr = dict(zip("abe", Model.FIELD[m.kind].split()))[step["f"]]
            o = oscs[step["i"] - 1]
            getattr(obj, attr)[step["i"] - 1].value = m.osc(o, step["f"])
        elif op == "copy":
            f = dict(deepcopy=copy.deepcopy, pickle=lambda x: pickle.loads(pickle.dumps(x)))[step["how"]]
            twin = case.call("C20", "copying a material", f, obj)
            case.ensure(type(twin) is type(obj) and twin.name == obj.name, "C20", "the copy of {} is {}", obj, twin)
            case.ensure(not {id(p) for p in flatten(twin.parameters)} & {id(p) for p in flatten(obj.parameters)}, "C20",
                        "a copied material shares parameters")
            case.extra_tags.add("C20")
        elif op == "exchange":
            obj, twin = twin, obj
        elif op == "default":
            obj.wavelength = m.wav(step["t"])
        elif op == "split" and len(oscs) > 1:
            # the oscillators add: eps = eps(part 1) + eps(part 2) - Einf
            c = rng.randint(1, len(oscs) - 1)
            o1, o2 = m.make(step, oscs[:c]), m.make(step, oscs[c:])
            E = rng.uniform(0.8, 6.0)
            Es = np.array([E, E * 0.7])
            einf = m.scalar("Einf", step["sc"]["Einf"])
            s = case.call(T, what, lambda: o1.epsilon(Es) + o2.epsilon(Es) - einf)
            w = case.call(T, what, obj.epsilon, Es)
            case.ensure(np.allclose(s, w, rtol=1e-8, atol=1e-8), T,
                        "{}: oscillators do not add: {} and {}", what, s, w)
            s1 = case.call(T, what, obj.epsilon, float(E))
            case.ensure(abs(complex(s1) - w[0]) <= 1e-10 * (1 + abs(w[0])), T,
                        "{}: epsilon of a number {} and an array {} differ", what, s1, w[0])
        elif op == "refuse":
            from refellips import dispersion as D

            L = [list(x) for x in m.lists(oscs)]
            i = rng.randrange(3)
            L[i] = L[i] + [L[i][0]]
            args = L + ([1.0] if m.kind == "tauc" else [])
            cls = dict(lorentz=D.Lorentz, gauss=D.Gauss, tauc=D.TaucLorentz)[m.kind]
            case.refused(T, f"{m.kind} with lists of {[len(x) for x in L]}", ValueError, cls, *args)
        listed(case, m.kind, obj, what)
        # evaluate
        w = step.get("w") or rng.choice(["one", "many", "default"])
        if w == "one":
            lam = rng.choice([rng.uniform(190, 1700), rng.randint(200, 1600), 658.0])
            if m.kind == "tauc" and rng.random() < 0.3:
                # just above or below the gap
                lam = oracle.HC / (m.scalar("Eg", step["sc"]["Eg"]) * (1 + rng.choice([-1, 1]) * 10 ** rng.uniform(-8, -3)))
            got = case.call(T, what, obj.complex, lam)
            case.ensure(np.ndim(got) == 0, T, "{}: complex({}) is {}", what, lam, got)
            check_value(case, m, step, oscs, float(lam), got, what)
        elif w == "npfloat":
            lam = np.float64(rng.uniform(190, 1700))
            got = case.call(T, what, obj.complex, lam)
            check_value(case, m, step, oscs, float(lam), complex(got), what)
        elif w == "many":
            n = rng.choice([1, 2, 3, 3, 3, 60])
            lams = case.np.uniform(190, 1700, n)
            lams = case.own([lams, np.sort(lams), np.sort(lams)[::-1]][rng.randrange(3)], "wavelengths")
            got = case.call(T, what, obj.complex, lams)
            if m.kind == "const" and np.ndim(got) == 0:
                got = [got] * n     # one value stands for all
            case.ensure(np.shape(got) == (n,), T, "{}: complex of {} wavelengths has shape {}", what, n, np.shape(got))
            for i in (range(n) if n < 4 else rng.sample(range(n), 3)):
                x, y = lams[i], got[i]
                check_value(case, m, step, oscs, float(x), y, what)
            case.verify_owned("evaluating a model")
        elif w == "complex":
            lam = float(m.wav(step["dflt"]))
            check_value(case, m, step, oscs, lam, case.call(T, what, complex, obj), what)
            case.call(T, what, str, obj)
            if m.kind == "sellmeier":
                e = case.call(T, what, obj.epsilon, lam)
                wv = m.eps(step, oscs, lam)
                case.ensure(abs(e - wv) < 1e-9 * (1 + abs(wv)), T, "{}: epsilon {} not {}", what, e, wv)
        else:
            lam = float(m.wav(step["dflt"]))
            check_value(case, m, step, oscs, lam, case.call(T, what, obj.complex, None), what)
            # the default wavelength and the same wavelength given explicitly agree
            a, b = obj.complex(None), obj.complex(lam)
            case.ensure(abs(a - b) <= 1e-12 * (1 + abs(b)), T, "{}: default {} explicit {}", what, a, b)
        if twin is not None:
            tw = step["twin"][0]
            lam = rng.choice([None, rng.uniform(190, 1700)])
            check_value(case, m, tw, tw["osc"], lam or float(m.wav(tw["dflt"])), case.call("C20", "evaluating the other copy",
                        twin.complex, lam), "the other copy of " + what)
    # unit conversion
    x = rng.uniform(100, 2000)
    for v in (x, case.own(np.array([x, 2 * x]), "wavelengths")):
        e = case.call(T, "nm_eV_conversion", nm_eV_conversion, v)
        case.ensure(np.allclose(np.asarray(e) * np.asarray(v), 1239.841984, rtol=1e-6, atol=0), T,
                    "nm_eV_conversion({}) is {}", v, e)
    case.verify_owned("materials")
