"""Replays spec/Stack.tla: materials, slabs, structures, models, copies."""
import copy
import pickle

import numpy as np
from refnx._lib import flatten
from refnx.analysis import Parameter

from . import oracle
from .core import short


# ------------------------------------------------------- concrete values
class Values:
    def __init__(self, case):
        self.rng = case.rng
        self.v = {}
        self.m = {}

    def get(self, role, tok):
        key = (role, tok)
        if key not in self.v:
            u = self.rng.uniform
            if tok == 0 and role in ("th", "ro", "vf"):
                x = 0.0
            elif role == "vf":
                x = self.rng.choice([u(0, 1), u(0, 1), 1.0, 1e-3])
            else:
                x = {"th": lambda: self.rng.choice([u(0.5, 50), u(50, 3000), u(3000, 30000)]),
                     "ro": lambda: u(0.1, 30),
                     "A": lambda: u(1.2, 2.5), "B": lambda: u(0, 0.03), "C": lambda: u(0, 5e-4),
                     "Am": lambda: u(0.5, 8), "Br": lambda: u(0.1, 1.5), "En": lambda: u(1, 5),
                     "Einf": lambda: u(1, 3)}[role]()
            self.v[key] = x
        return self.v[key]

    def wav(self, t):
        if ("w", t) not in self.v:
            self.v["w", t] = self.rng.choice([self.rng.uniform(300, 1200), 658.0, 532, 400])
        return self.v["w", t]

    def aoi(self, t):
        if ("a", t) not in self.v:
            self.v["a", t] = self.rng.choice([self.rng.uniform(20, 85), 65.0, 70])
        return self.v["a", t]

    def dp(self, t):
        if t == 0:
            return 1 / 3
        if ("d", t) not in self.v:
            self.v["d", t] = self.rng.choice([0.0, 0.5, 1.0, self.rng.uniform(0, 1)])
        return self.v["d", t]

    def source(self, kind, src):
        """fixed data of material number src"""
        key = (kind, src)
        if key not in self.m:
            u = self.rng.uniform
            d = dict(default=u(350, 1000))
            cls = self.rng.choice(["void", "diel", "diel", "lossy", "metal"])
            d["n"] = {"void": 1.0 + 0j, "diel": complex(u(1.1, 2.6), 0), "lossy": complex(u(1.2, 4), u(0, 1)),
                      "metal": complex(u(0.1, 2), u(1, 6))}[cls]
            d["tab"] = [np.array([0.3, 0.5, 0.9]), np.array([u(1.2, 3) for _ in range(3)]),
                        np.array([u(0, 2) for _ in range(3)])]
            self.m[key] = d
        return self.m[key]

    def ri(self, mat, cells, wav):
        """refractive index of specification material `mat`"""
        d = self.source(mat["kind"], mat["src"])
        if wav is None:
            wav = d["default"]
        p = [self.get(cells[c - 1]["role"], cells[c - 1]["tok"]) for c in mat["ps"]]
        k = mat["kind"]
        if k == "const":
            return d["n"]
        if k == "cauchy":
            return oracle.cauchy(*p, wav)
        if k == "lorentz":
            return oracle.ri_from_eps(oracle.lorentz_eps([p[0]], [p[1]], [p[2]], p[3], wav))
        t = d["tab"]
        return complex(np.interp(wav, t[0] * 1000, t[1]), np.interp(wav, t[0] * 1000, t[2]))


def safe_mix(ema, na, nb, f, L):
    """oracle, None when the rule is (nearly) singular or ambiguous there"""
    ea, eb = na * na, nb * nb
    if f == 0 or na == nb:
        return na
    try:
        if ema == "maxwell-garnett":
            den = ea + L * (1 - f) * (eb - ea)
            if abs(den) < 1e-3 * (abs(ea) + abs(eb)):
                return None
        if ema == "bruggeman":
            if L == 1:
                if abs(f * ea + (1 - f) * eb) < 1e-3 * (abs(ea) + abs(eb)):
                    return None
            elif L > 0:
                B = ea * (1 - f - L) + eb * (f - L)
                s = (B * B + 4 * (1 - L) * L * ea * eb) ** 0.5
                sc = abs(B) + abs(s)
                if abs(s) < 1e-5 * sc or 1 - L < 1e-4:
                    return None
                if (ea.imag or eb.imag) and abs((s / (1 - L)).imag) < 1e-9 * sc:
                    return None
        n = oracle.mix(ema, na, nb, f, L)
    except ZeroDivisionError:
        return None
    if n != n or abs(n) > 1e4:
        return None
    return n


def expected_table(vals, step, o, wav="own"):
    """rows [thick, n, rough, vf]; n None if undetermined"""
    comp, mat, cell = step["comp"], step["mat"], step["cell"]
    w = (vals.wav(o["wav"]) if o["wav"] else None) if wav == "own" else wav
    L = vals.dp(o["dp"])

    def val(c):
        return vals.get(cell[c - 1]["role"], cell[c - 1]["tok"])

    def base(ci):
        c = comp[ci - 1]
        a = vals.ri(mat[c["a"] - 1], cell, w)
        if c["kind"] == "slab":
            return a
        b = vals.ri(mat[c["b"] - 1], cell, w)
        f = val(c["vf"])
        return safe_mix(o["ema"], a, b, f, L)

    rows = []
    anysolv = any(comp[r["c"] - 1]["kind"] == "slab" and val(comp[r["c"] - 1]["vf"]) > 0 for r in o["rows"])
    for r in o["rows"]:
        c = comp[r["c"] - 1]
        n = base(r["c"])
        f = val(c["vf"]) if c["kind"] == "slab" else 0.0
        if r["by"] and n is not None and f > 0:
            s = vals.ri(mat[r["by"] - 1], cell, w) if r["by"] > 0 else base(-r["by"])
            n = safe_mix(o["ema"], n, s, f, L)
        elif anysolv and n is not None and o["ema"] != "linear" and r["by"]:
            # fraction 0 still goes through the mixing formula
            s = vals.ri(mat[r["by"] - 1], cell, w) if r["by"] > 0 else base(-r["by"])
            if s is not None and unsafe_zero(o["ema"], n, s, L):
                n = None
        elif anysolv and n is not None and c["kind"] == "mixed" and o["ema"] != "linear":
            inner = 0 < o["rows"].index(r) < len(o["rows"]) - 1
            last = o["rows"][-1]["c"]
            s = vals.ri(mat[o["solv"] - 1], cell, w) if o["solv"] else base(last)
            if inner and s is not None and unsafe_zero(o["ema"], n, s, L):
                n = None
        rows.append((val(c["th"]), n, 0.0 if r["ro"] == 0 else val(comp[r["ro"] - 1]["ro"]), f))
    return rows


def unsafe_zero(ema, na, nb, L):
    """is mixing with fraction zero numerically ambiguous?"""
    ea, eb = na * na, nb * nb
    if ema == "maxwell-garnett":
        return abs(ea + L * (eb - ea)) < 1e-3 * (abs(ea) + abs(eb))
    if L in (0, 1):
        return False
    if 1 - L < 1e-4:
        return True
    alt = -L * eb / (1 - L)
    if ea.imag or eb.imag:
        return alt.imag > ea.imag - 1e-9 * (abs(ea) + abs(alt))
    return False


# ----------------------------------------------------------------- world
class World:
    def __init__(self, case, nm):
        self.case = case
        self.vals = Values(case)
        self.cells, self.mats, self.comps, self.st, self.models = {}, {}, {}, {}, {}
        self.watched = {}
        self.watch = None
        if case.rng.random() < 0.5:
            self.watch = np.array([[case.rng.uniform(320, 1000), case.rng.uniform(45, 80)] for _ in range(2)])

    # creating
    def make_mats(self, step):
        from refellips import dispersion as D

        case, v = self.case, self.vals
        for i, m in enumerate(step["mat"], 1):
            if i in self.mats:
                continue
            d = v.source(m["kind"], m["src"])
            p = [v.get(step["cell"][c - 1]["role"], step["cell"][c - 1]["tok0"] if "tok0" in step["cell"][c - 1]
                       else m["src"]) for c in m["ps"]]
            k = m["kind"]
            kw = dict(wavelength=d["default"], name=f"m{i}")
            if k == "const":
                ob = D.RI((d["n"].real, d["n"].imag), **kw)
            elif k == "table":
                ob = D.RI(list(d["tab"]), **kw)
            elif k == "cauchy":
                ob = D.Cauchy(*p, **kw)
            else:
                ob = D.Lorentz([p[0]], [p[1]], [p[2]], Einf=p[3], **kw)
            self.mats[i] = ob
            self.link_mat(i, m)

    def link_mat(self, i, m):
        ps = list(flatten(self.mats[i].parameters))
        self.case.ensure(len(ps) == len(m["ps"]), "C17", "material {} lists {} parameters, expected {}",
                         m["kind"], len(ps), len(m["ps"]))
        for c, p in zip(m["ps"], ps):
            self.link(c, p, f"parameter of material {i}")

    def link(self, c, p, what, tags="C20 C17"):
        if c in self.cells:
            self.case.ensure(self.cells[c] is p, tags, "{} is not the shared parameter", what)
        else:
            for d, q in self.cells.items():
                self.case.ensure(q is not p, tags, "{} is shared with an unrelated parameter", what)
            self.cells[c] = p

    def link_comp(self, i, c):
        ob = self.comps[i]
        self.link(c["th"], ob.thick, f"thickness of component {i}")
        self.link(c["ro"], ob.rough, f"roughness of component {i}")
        self.link(c["vf"], ob.vfsolv if c["kind"] == "slab" else ob.vf_B, f"fraction of component {i}")

    def val(self, step, c):
        return self.vals.get(step["cell"][c - 1]["role"], step["cell"][c - 1]["tok"])

    def arg(self, step, c):
        if c in self.cells:
            return self.cells[c]
        x = self.val(step, c)
        r = self.case.rng.random()
        if r < 0.3:
            return Parameter(x, "p")
        return x

    def operand(self, o):
        if o["k"] == "comp":
            return self.comps[o["i"]]
        if o["k"] == "mat":
            return self.mats[o["i"]]
        return self.st[o["h"]]

    def adopt(self, h, obj, step, T):
        """a new structure object under handle h, with the spec's settings"""
        from refellips.structureSE import StructureSE

        self.case.ensure(type(obj) is StructureSE, T, "{} made a {}", step["op"], type(obj).__name__)
        self.st[h] = obj
        self.models.pop(h, None)
        self.apply_settings(h, step)

    def apply_settings(self, h, step):
        o = step["obs"][h]
        s = self.st[h]
        s.reverse_structure = o["rev"]
        s.ema = o["ema"]
        s.depolarisation_factor = self.vals.dp(o["dp"])
        s.solvent = self.mats[o["solv"]] if o["solv"] else None
        s.wavelength = self.vals.wav(o["wav"]) if o["wav"] else None

    # ----------------------------------------------------------------- step
    def step(self, step):
        from refellips import structureSE as S
        from refellips import ReflectModelSE

        case, rng = self.case, self.case.rng
        op = step["op"]
        h = step.get("h")
        T = "C09"
        case.steps += 1
        before = {g: list(s.data) for g, s in self.st.items()}
        if op == "slab":
            i = step["c"]
            c = step["comp"][i - 1]
            m = self.mats[c["a"]]
            th, ro, vf = (self.arg(step, c[k]) for k in ("th", "ro", "vf"))
            if step["how"] == "call":
                if self.val(step, c["vf"]) == 0 and rng.random() < 0.5 and c["vf"] not in self.cells:
                    ob = case.call(T, "material(thick, rough)", m, th, ro)
                else:
                    ob = case.call(T, "material(thick, rough, vfsolv)", m, th, ro, vf)
            else:
                ob = case.call(T, "SlabSE", S.SlabSE, th, m, ro, name="x", vfsolv=vf)
            self.comps[i] = ob
            self.link_comp(i, c)
            case.ensure(ob.ri is m, T, "a slab does not hold the material it was made of")
        elif op == "mixed":
            i = step["c"]
            c = step["comp"][i - 1]
            ob = case.call(T, "MixedSlabSE", S.MixedSlabSE, self.arg(step, c["th"]), self.mats[c["a"]],
                           self.mats[c["b"]], self.arg(step, c["vf"]), self.arg(step, c["ro"]))
            self.comps[i] = ob
            self.link_comp(i, c)
        elif op == "list":
            items = [self.comps[i] for i in step["items"]]
            case.own(items, "list of components")
            o = step["obs"][h]
            form = rng.randrange(3)
            arg = items if form == 0 else tuple(items) if form == 1 else iter(items)
            self.adopt(h, case.call(T, "StructureSE(list)", S.StructureSE, arg), step, T)
            case.ensure(self.st[h].data is not items, T, "the structure uses the caller's list")
        elif op in ("or", "or3"):
            x, y = self.operand(step["x"]), self.operand(step["y"])
            f = (lambda: x | y) if op == "or" else (lambda: x | y | self.operand(step["z"]))
            obj = case.call(T, f"{step['x']['k']} | {step['y']['k']}", f)
            case.ensure(all(obj is not s for s in self.st.values()), T, "| returned one of its operands")
            self.adopt(h, obj, step, T)
        elif op == "sandwich":
            def build():
                x = self.mats[step["a"]]
                for i in step["items"]:
                    x = x | self.comps[i]
                return x | self.mats[step["b"]]
            self.adopt(h, case.call(T, "material | components | material", build), step, T)
        elif op == "ior":
            s = self.st[h]
            y = self.operand(step["y"])
            s0 = s
            s = case.call(T, "|=", S.StructureSE.__ior__, s, y)
            case.ensure(s is s0, T, "|= returned another structure")
        elif op == "append":
            case.call(T, "append", self.st[h].append, self.operand(step["y"]))
        elif op == "twice":
            for _ in range(2):
                y = self.operand(step["y"])
                if step["how"] == "append":
                    case.call(T, "append", self.st[h].append, y)
                else:
                    case.call(T, "|=", S.StructureSE.__ior__, self.st[h], y)
        elif op == "extend":
            items = case.own([self.comps[i] for i in step["items"]], "list of components")
            case.call(T, "extend", self.st[h].extend, items)
        elif op == "insert":
            n = len(self.st[h])
            i = step["i"]
            if i < n and rng.random() < 0.3:
                i -= n
            case.call(T, "insert", self.st[h].insert, i, self.comps[step["c"]])
        elif op == "setitem":
            i = step["i"] - 1
            if rng.random() < 0.3:
                i -= len(self.st[h])
            case.call(T, "setitem", self.st[h].__setitem__, i, self.comps[step["c"]])
        elif op == "pop":
            i = step["i"] - 1
            if rng.random() < 0.5:
                case.call(T, "pop", self.st[h].pop, i)
            else:
                case.call(T, "del", self.st[h].__delitem__, i)
        elif op == "slice":
            g = self.st[step["g"]]
            self.adopt(h, case.call(T, "slice", lambda: g[step["i"]:step["j"]]), step, T)
        elif op == "repeat":
            x, c, y = (self.comps[step[k]] for k in "xcy")
            n = step["n"]
            n = rng.choice([n, np.int64(n)])
            r = case.call(T, "component * n", lambda: c * n)
            if n == 1:
                case.ensure(r is c, T, "component * 1 is not the component")
            if rng.random() < 0.2:
                # a Bragg mirror
                N = rng.choice([12, 40, 100, 500])
                many = case.call(T, "component * n", lambda: c * N)
                case.ensure(len(many) == N and all(k is c for k in many), T, "component * {} has {} components", N, len(many))
            self.adopt(h, case.call(T, "|", lambda: x | r | y), step, T)
        elif op == "refuse":
            self.refuse(step)
        elif op == "cell":
            p = self.cells[step["c"]]
            p.value = self.val(step, step["c"])
        elif op == "swap":
            c, ob = step["comp"][step["c"] - 1], self.comps[step["c"]]
            if c["kind"] == "slab":
                ob.ri = self.mats[c["a"]]
            else:
                ob.ri_A, ob.ri_B = self.mats[c["a"]], self.mats[c["b"]]
        elif op in ("rev", "solv", "ema", "wav"):
            self.apply_settings(h, step)
        elif op == "copy":
            g = self.st[step["g"]]
            con = g.contract = rng.choice([0, 0, 0.5])
            s = case.call("C20", "copy", copy.copy, g)
            self.contracts(con, g, s)
            case.ensure(s is not self.st[step["g"]] and s.data is not self.st[step["g"]].data, "C20",
                        "copy.copy of a structure shares its list")
            self.st[h] = s
            self.models.pop(h, None)
        elif op == "deep":
            g = self.st[step["g"]]
            con = g.contract = rng.choice([0, 0, 0.5])
            if step["how"] == "pickle":
                s = case.call("C20", "pickle", lambda: pickle.loads(pickle.dumps(g)))
            else:
                s = case.call("C20", "deepcopy", copy.deepcopy, g)
            self.contracts(con, g, s)
            self.st[h] = s
            self.models.pop(h, None)
            self.link_deep(step, s)
        elif op == "eval":
            self.evaluate(step)
        self.observe(step, before)

    def contracts(self, con, g, s):
        self.case.ensure(g.contract == con and s.contract == con, "C20", "contract is {} for the copy, {} for the original, was {}",
                         s.contract, g.contract, con)
        # (the specification's tables aren't contracted)
        g.contract = 0
        if s is not g:
            self.case.ensure(s.contract == con, "C20", "changing contract of the original changes the copy")
            s.contract = 0

    def link_deep(self, step, s):
        """associate the copied objects with the specification's fresh ids"""
        case = self.case
        T = "C20"
        o = step["obs"][step["h"]]
        case.ensure(len(s.data) == len(o["seq"]), T, "a deep copy has {} components, not {}", len(s.data), len(o["seq"]))
        for i, ob in zip(o["seq"], s.data):
            if i in self.comps:
                case.ensure(self.comps[i] is ob, T, "a component used twice is no longer shared in a deep copy")
            else:
                case.ensure(all(ob is not q for q in self.comps.values()), T, "a deep copy shares a component")
                self.comps[i] = ob
        for i in o["seq"]:
            c = step["comp"][i - 1]
            ob = self.comps[i]
            pairs = [(c["a"], ob.ri)] if c["kind"] == "slab" else [(c["a"], ob.ri_A), (c["b"], ob.ri_B)]
            for m, mo in pairs:
                self.link_matobj(m, mo)
        if o["solv"]:
            case.ensure(s.solvent is not None, T, "a deep copy lost its solvent")
            self.link_matobj(o["solv"], s.solvent)
        else:
            case.ensure(s.solvent is None, T, "a deep copy gained a solvent")
        for i in o["seq"]:
            self.link_comp(i, step["comp"][i - 1])
        for m, mo in list(self.mats.items()):
            self.link_mat(m, step["mat"][m - 1])

    def link_matobj(self, m, mo):
        if m in self.mats:
            self.case.ensure(self.mats[m] is mo, "C20", "a material used twice is no longer shared in a deep copy")
        else:
            self.case.ensure(all(mo is not q for q in self.mats.values()), "C20", "a deep copy shares a material")
            self.mats[m] = mo

    def refuse(self, step):
        from refellips import structureSE as S
        from refellips import ReflectModelSE

        case, rng = self.case, self.case.rng
        s = self.st[step["h"]]
        junk = rng.choice([5, 1.5, "SiO2", None, (1.0, 0.0), [1], np.array([1.0]), object()])
        how = step["how"]
        T = "C09"
        if how == "append":
            case.refused(T, f"append({short(junk, 30)})", (ValueError, TypeError), s.append, junk)
        elif how == "ior":
            case.refused(T, f"|= {short(junk, 30)}", (ValueError, TypeError), S.StructureSE.__ior__, s, junk)
        elif how == "or":
            case.refused(T, f"| {short(junk, 30)}", (ValueError, TypeError), lambda: s | junk)
        elif how == "solvent":
            if junk is not None:
                case.refused(T, f"solvent = {short(junk, 30)}", ValueError, setattr, s, "solvent", junk)
        elif how == "slab":
            case.refused(T, f"SlabSE of {short(junk, 30)}", (ValueError, TypeError), S.SlabSE, 10, junk, 0)
        elif how == "dp":
            case.refused("C11", "depolarisation_factor = 1.5", ValueError, setattr, s, "depolarisation_factor",
                         rng.choice([1.5, -0.1, 7]))
        else:
            case.refused(T, "ReflectModelSE of junk", (ValueError, TypeError), ReflectModelSE, junk)

    # ------------------------------------------------------------- checking
    def observe(self, step, before):
        case = self.case
        op, h = step["op"], step.get("h")
        obs = step["obs"] or {}
        for g, o in obs.items():
            s = self.st[g]
            mine = g == h
            where = f"after {op}, structure {g}"
            # which objects: fresh slabs made from bare materials become known
            data = list(s.data)
            T = ("C20" if op in ("copy", "deep") and mine else "C19 C23" if op == "eval" else "C09")
            case.ensure(len(data) == len(o["seq"]), T, "{} has {} components, expected {}", where, len(data), len(o["seq"]))
            case.ensure(len(s) == len(data), T, "{}: len is {}", where, len(s))
            for i, ob in zip(o["seq"], data):
                if i not in self.comps:
                    from refellips.structureSE import SlabSE

                    c = step["comp"][i - 1]
                    case.ensure(type(ob) is SlabSE, T, "{}: a bare material became {}", where, short(ob))
                    case.ensure(all(ob is not q for q in self.comps.values()), T, "{}: a bare material's slab is not new", where)
                    case.ensure(ob.ri is self.mats[c["a"]], T, "{}: a bare material's slab is of another material", where)
                    case.ensure((ob.thick.value, ob.rough.value, ob.vfsolv.value) == (0, 0, 0), T,
                                "{}: a bare material's slab is not empty: {}", where,
                                (ob.thick.value, ob.rough.value, ob.vfsolv.value))
                    self.comps[i] = ob
                    self.link_comp(i, c)
                else:
                    case.ensure(self.comps[i] is ob, T, "{}: components are not the expected ones, in order", where)
            # settings
            TS = "C20" if op in ("copy", "deep") and mine else "C19 C23" if op == "eval" else "C10 C23"
            case.ensure(bool(s.reverse_structure) == o["rev"] and s.ema == o["ema"]
                        and s.depolarisation_factor == self.vals.dp(o["dp"]), TS,
                        "{}: settings are {}, expected {}", where,
                        (s.reverse_structure, s.ema, s.depolarisation_factor), (o["rev"], o["ema"], self.vals.dp(o["dp"])))
            want = self.mats[o["solv"]] if o["solv"] else None
            case.ensure(s.solvent is want, TS, "{}: solvent is {}", where, short(s.solvent))
            if op != "eval":
                case.ensure(s.wavelength == (self.vals.wav(o["wav"]) if o["wav"] else None), TS,
                            "{}: wavelength is {}", where, s.wavelength)
            # parameters
            if o["pars"] == [0]:
                continue
            TP = "C20" if op in ("copy", "deep") and mine else "C17"
            ps = list(flatten(case.call(TP, where + ": parameters", lambda: s.parameters)))
            case.ensure(len(ps) == len(o["pars"]), TP, "{} lists {} parameters, expected {}", where, len(ps), len(o["pars"]))
            for c, p in zip(o["pars"], ps):
                case.ensure(self.cells.get(c) is p, TP, "{}: parameters are not the expected ones, in order", where)
        # values
        for c, p in self.cells.items():
            want = self.val(step, c)
            T = "C20" if op in ("copy", "deep") else "C19 C23" if op == "eval" else "C09"
            case.ensure(p.value == want, T, "after {}: parameter {} ({}) is {} not {}", op, c,
                        step["cell"][c - 1]["role"], p.value, want)
        for g, o in obs.items():
            # those the operation was about, and a sample of the others
            if g == h or op in ("cell", "swap") or case.rng.random() < 0.3:
                self.check_table(step, g, o, f"after {op}, structure {g}")
        if self.watch is not None:
            self.look_again(step, obs)
        case.verify_owned(op)

    def look_again(self, step, obs):
        """the same model at the same points after every operation: whatever has changed shows, nothing else does"""
        from refellips import ReflectModelSE

        case = self.case
        for g, o in obs.items():
            if not o["ok"] or not 2 <= len(o["rows"]) <= 30:
                continue
            s = self.st[g]
            m = self.watched.get(g)
            if m is None or m.structure is not s:
                m = self.watched[g] = case.call("C23", "ReflectModelSE", ReflectModelSE, s)
            own = s.wavelength
            psi, delta = case.call("C23", "model evaluation", m, case.own(self.watch.copy(), "points"))
            s.wavelength = own
            for k, (w, a) in enumerate(self.watch):
                rows = expected_table(self.vals, step, o, wav=w)
                if any(r[1] is None for r in rows):
                    continue
                p, d, tol = oracle_point(rows, w, a)
                if p is None:
                    continue
                dd = abs(delta[k] - d) % 360
                case.ensure(abs(psi[k] - p) <= tol and min(dd, 360 - dd) <= tol, "C23",
                            "after {}: prediction at {} nm, {} deg is {}, expected {} for layers {}", step["op"], w, a,
                            (psi[k], delta[k]), (p, d), short(rows, 500))

    def check_table(self, step, g, o, where):
        case, s = self.case, self.st[g]
        op = step["op"]
        T = "C10" if not (op in ("copy", "deep") and g == step.get("h")) else "C10 C20"
        if not (op in ("copy", "deep") and g == step.get("h")):
            T += " C23"
        if op == "eval":
            self.apply_settings(g, step)
        if not o["ok"]:
            case.refused(T, where + ": layer table of a stack without plain ends", ValueError, s.slabs)
            return
        tab = case.call(T, where + ": layer table", s.slabs)
        if not o["seq"]:
            case.ensure(tab is None, T, "{}: an empty structure has a table {}", where, short(tab))
            return
        want = expected_table(self.vals, step, o)
        self.compare_table(tab, want, T, where)
        if case.rng.random() < 0.15:
            w = case.rng.uniform(310, 1100)
            tab = case.call(T, where + ": slabs(wavelength)", s.slabs, wavelength=w)
            self.compare_table(tab, expected_table(self.vals, step, o, wav=w), T, where + f" at {w} nm")
            self.apply_settings(g, step)

    def compare_table(self, tab, want, T, where):
        case = self.case
        case.ensure(isinstance(tab, np.ndarray) and tab.shape == (len(want), 5), T, "{}: table has shape {}, expected {}",
                    where, np.shape(tab), (len(want), 5))
        for i, (th, n, ro, vf) in enumerate(want):
            case.ensure(tab[i, 0] == th and tab[i, 3] == ro and tab[i, 4] == vf, T,
                        "{}: row {} has thickness, roughness, solvent fraction {}, expected {}", where, i,
                        (tab[i, 0], tab[i, 3], tab[i, 4]), (th, ro, vf))
            if n is not None:
                got = complex(tab[i, 1], tab[i, 2])
                case.ensure(abs(got - n) <= 1e-6 * (1 + abs(n)), T, "{}: row {} has refractive index {}, expected {}",
                            where, i, got, n)

    def evaluate(self, step):
        from refellips import ReflectModelSE

        case = self.case
        h = step["h"]
        s = self.st[h]
        T = "C23"
        if step["how"] == "kept" and h in self.models:
            m = self.models[h]
        else:
            m = case.call(T, "ReflectModelSE", ReflectModelSE, s)
            self.models.setdefault(h, m)
        pts = case.own(np.array([[self.vals.wav(p["w"]), self.vals.aoi(p["a"])] for p in step["pts"]], float), "points")
        keep = pts.copy()
        res = case.call("C23 C13", "model evaluation", m, pts)
        case.ensure(np.array_equal(pts, keep), "C04", "evaluation changed the points")
        case.ensure(len(res) == 2 and np.shape(res[0]) == np.shape(res[1]) == (len(pts),), "C23 C13 C14",
                    "prediction has shapes {}", [np.shape(x) for x in res])
        o = step["obs"][h]
        for k, (w, a) in enumerate(pts):
            rows = expected_table(self.vals, step, o, wav=w)
            if any(r[1] is None for r in rows):
                continue
            psi, delta, tol = oracle_point(rows, w, a)
            if psi is None:
                continue
            dd = abs(res[1][k] - delta) % 360
            case.ensure(abs(res[0][k] - psi) <= tol and min(dd, 360 - dd) <= tol, "C23 C13",
                        "prediction at {} nm, {} deg is {}, expected {} for layers {}", w, a,
                        (res[0][k], res[1][k]), (psi, delta), short(rows, 500))


def oracle_point(rows, w, a, reflect=False, offset=0.0):
    """psi, delta and tolerance; None when the ratio is not well conditioned"""
    n = [r[1] for r in rows]
    d = [r[0] for r in rows[1:-1]]
    if n[0].real <= 0:
        return None, None, None
    # layers thicker than the clip of the optical path differ negligibly
    try:
        psi, delta, cond = oracle.psi_delta(n, d, w, a, reflect, offset)
        psi2, delta2, _ = oracle.psi_delta([x * (1 + 1e-9) for x in n], d, w, a * (1 + 1e-10), reflect, offset)
    except (ZeroDivisionError, OverflowError):
        return None, None, None
    if not (psi == psi and delta == delta and psi2 == psi2 and delta2 == delta2):
        return None, None, None
    if cond < 1e-7:
        return None, None, None
    dd = abs(delta2 - delta) % 360
    sens = max(abs(psi2 - psi), min(dd, 360 - dd))
    if sens > 1e-3:
        return None, None, None
    return psi, delta, 1e-6 + 1e2 * sens + 1e-10 / cond


def replay(case, beh, opts):
    w = World(case, opts.get("nm", 4))
    for step in beh:
        w.make_mats(step) if not w.mats else None
        w.step(step)
