"""Replays spec/Fit.tla: objectives, sharing, co-refinement, looking, copies, fits."""
import copy
import math
import pickle

import numpy as np
from scipy import stats
from refnx._lib import flatten
from refnx.analysis import Parameter, Interval, PDF, GlobalObjective, CurveFitter

from refellips.dispersion import RI, Cauchy
from refellips.structureSE import SlabSE, StructureSE
from refellips.reflect_modelSE import ReflectModelSE
from refellips.objectiveSE import ObjectiveSE
from refellips.dataSE import DataSE

from . import oracle
from .core import MachineryError, close, short
from .drv_stack import oracle_point, safe_mix


# ------------------------------------------ user code handed to the library
class TermSlab(SlabSE):
    """a component with a log-probability term of its own"""

    def logp(self):
        return -((self.thick.value - 300.0) ** 2) / 2e4 - 0.25


class CountingModel(ReflectModelSE):
    evaluations = 0

    def model(self, *a, **k):
        CountingModel.evaluations += 1
        return super().model(*a, **k)

    def __call__(self, *a, **k):
        CountingModel.evaluations += 1
        return super().__call__(*a, **k)


def extra_term(model, data):
    return -0.5 * (float(model.delta_offset.value) / 3.0) ** 2 - 0.125 * len(data)


BOX = dict(th=(200.0, 400.0), A=(1.4, 1.7), B=(0.004, 0.012), C=(1e-5, 1e-4), ro=(2.0, 8.0), vf=(0.2, 0.6),
           off=(-5.0, 5.0), ln=(-3.0, -1.0))
BELOW = dict(th=(50, 190), A=(1.2, 1.38), B=(0, 0.0035), C=(0, 9e-6), ro=(0, 1.9), vf=(0, 0.19), off=(-30, -6),
             ln=(-6, -3.5))
ABOVE = dict(th=(420, 900), A=(1.75, 2.2), B=(0.013, 0.02), C=(1.1e-4, 3e-4), ro=(9, 20), vf=(0.65, 1.0), off=(6, 30),
             ln=(-0.9, 3.0))


def same_list(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


class World:
    def __init__(self, case, opts):
        self.case, self.rng, self.opts = case, case.rng, opts
        self.v = {}
        self.key = []          # value key of each cell
        self.par = []
        self.bnd = []          # the bounds object of each cell
        self.mats, self.matc = [], []
        self.films, self.filmc = [], []
        self.models, self.modelc = [], []
        self.datas, self.datac = [], []
        self.objs, self.objc = [], []
        self.flips = []        # conventions of all objectives ever made with a model
        u = self.rng.uniform
        self.nback = self.rng.choice([complex(1.33, 0), complex(3.87, 0.02), complex(u(1.4, 4), 0), complex(0.2, 3.4)])
        self.pts = {}
        self.copies = 0
        # a point token stands for a block of this many measurements
        self.mult = self.rng.choice([12, 30]) if self.rng.random() < 0.04 else 1
        # parameters are told apart by identity, not by name or value
        self.tight = self.rng.choice([1, 1, 1, 0.02])  # width of the normal priors
        self.names = self.rng.choice(["own", "own", "role", "none"])

    def block(self, d):
        if self.mult > 1:
            d = dict(d)
            for k in ("pts", "mask"):
                if k in d:
                    d[k] = [(x, j) if k == "pts" else x for x in d[k] for j in range(self.mult)]
        return d

    # ------------------------------------------------------------- values
    def val(self, c, tok):
        """value of cell c (1-based) for a token"""
        k, role = self.key[c - 1]
        if (k, tok) not in self.v:
            u = self.rng.uniform
            if tok in (0, 1):
                lo, hi = BOX[role]
                x = u(lo + 0.05 * (hi - lo), hi - 0.05 * (hi - lo))
                if self.rng.random() < 0.05:
                    x = self.rng.choice([lo, hi])  # the bounds belong to the interval
                roles = dict(self.key)
                twins = [y for q, y in self.v.items() if len(q) == 2 and q[1] in (0, 1) and q[0] != k and roles.get(q[0]) == role
                         and y != self.v.get((k, 1 - tok))]
                if twins and self.rng.random() < 0.15:
                    x = self.rng.choice(twins)
                if (k, 1 - tok) in self.v and self.rng.random() < 0.08:
                    # as close to the other one as can be
                    x = float(np.nextafter(self.v[k, 1 - tok], (lo + hi) / 2))
            elif tok == 2:
                x = 0.0 if role in ("vf", "ro") and self.rng.random() < 0.6 else u(*BELOW[role])
            else:
                x = u(*ABOVE[role])
            self.v[k, tok] = float(x)
        return self.v[k, tok]

    def bounds(self, role, b):
        lo, hi = BOX[role]
        if b == "free":
            return Interval()
        if b == "box":
            return Interval(lo, hi)
        if b == "low":
            return Interval(lo, np.inf)
        if b == "high":
            return Interval(-np.inf, hi)
        return PDF(stats.norm((lo + hi) / 2, (hi - lo) / 2 * self.tight))

    def own_logp(self, c, step):
        r, b = step["cell"][c - 1]["r"], step["cell"][c - 1]["b"]
        x = self.val(c, step["cell"][c - 1]["t"])
        lo, hi = BOX[r]
        if b == "box":
            return -math.log(hi - lo) if lo <= x <= hi else -math.inf
        if b == "low":
            return 0.0 if x >= lo else -math.inf
        if b == "high":
            return 0.0 if x <= hi else -math.inf
        if b == "norm":
            s = (hi - lo) / 2 * self.tight
            z = (x - (lo + hi) / 2) / s
            return -0.5 * z * z - math.log(s) - 0.5 * math.log(2 * math.pi)
        return 0.0

    def new_cells(self, step):
        while len(self.par) < len(step["cell"]):
            c = step["cell"][len(self.par)]
            self.key.append((len(self.par), c["r"]))
            p = Parameter(self.val(len(self.par) + 1, c["t"]), name=dict(own=f"{c['r']}{len(self.par)}", role=c["r"]).get(self.names), vary=c["v"])
            b = self.bounds(c["r"], c["b"])
            p.bounds = b
            self.par.append(p)
            self.bnd.append(b)

    def P(self, c):
        return self.par[c - 1]

    # ------------------------------------------------------------ building
    def add_mat(self, cs):
        self.mats.append(Cauchy(*[self.P(c) for c in cs]))
        self.matc.append(cs)

    def add_film(self, f):
        cls = TermSlab if self.rng.random() < 0.4 else SlabSE
        self.films.append(cls(self.P(f["th"]), self.mats[f["m"] - 1], self.P(f["ro"]), vfsolv=self.P(f["vf"])))
        self.filmc.append(f)

    def add_model(self, m):
        if not self.models:
            self.front = SlabSE(self.P(1), RI((1.0, 0)), self.P(2), vfsolv=self.P(3))
            self.back = SlabSE(self.P(4), RI((self.nback.real, self.nback.imag)), self.P(5), vfsolv=self.P(6))
        s = StructureSE([self.front] + [self.films[f - 1] for f in m["films"]] + [self.back],
                        ema=self.rng.choice(["linear", "linear", "maxwell-garnett", "bruggeman"]),
                        reverse_structure=self.rng.random() < 0.2 and self.nback.imag == 0)
        self.models.append(self.case.call("C17 C23", "ReflectModelSE", CountingModel, s,
                                          delta_offset=self.P(m["off"])))
        self.modelc.append(m)
        self.flips.append(set())

    def point(self, i):
        if i not in self.pts:
            u = self.rng.uniform
            few = self.rng.random() < 0.6
            w = self.rng.choice([532.0, 658.0, 633]) if few else u(350, 1000)
            self.pts[i] = (float(w), self.rng.choice([60.0, 65.0, 72.0]) if few else u(40, 80))
        return self.pts[i]

    def data_of(self, d):
        """columns of a specification dataset, before its convention is applied"""
        k = ("data", d["gen"], tuple(d["pts"]))
        if k not in self.v:
            n = len(d["pts"])
            psi = [self.rng.uniform(1, 89) for _ in range(n)]
            delta = [self.rng.choice([self.rng.uniform(0, 360), self.rng.uniform(0, 180), self.rng.uniform(180, 360)])
                     for _ in range(n)]
            self.v[k] = (psi, delta)
        psi, delta = self.v[k]
        w = [self.point(i)[0] for i in d["pts"]]
        a = [self.point(i)[1] for i in d["pts"]]
        return w, a, psi, delta

    def seen(self, d):
        """rows visible through the mask, in the dataset's convention"""
        w, a, psi, delta = self.data_of(d)
        if d["refl"]:
            delta = [360 - x if x > 180 else x for x in delta]
        return [r for r, m in zip(zip(w, a, psi, delta), d["mask"]) if m]

    def add_data(self, d):
        d = self.block(d)
        cols = [self.case.own(np.array(x, float), "data column") for x in self.data_of(d)]
        self.datas.append(self.case.call("C01 C03", "DataSE", DataSE, cols, reflect_delta=d["refl"]))
        self.datac.append(dict(d))

    def add_obj(self, o):
        kw = {}
        if o["ln"]:
            kw["lnsigma"] = self.P(o["ln"])
        if o["extra"]:
            kw["logp_extra"] = extra_term
        self.objs.append(self.case.call("C16 C17", "ObjectiveSE", ObjectiveSE, self.models[o["m"] - 1],
                                        self.datas[o["d"] - 1], **kw))
        self.objc.append(o)
        self.flips[o["m"] - 1].add(self.datac[o["d"] - 1]["refl"])

    # -------------------------------------------------------------- shadow
    def film_pars(self, f):
        f = self.filmc[f - 1]
        return [f["th"]] + list(self.matc[f["m"] - 1]) + [f["ro"], f["vf"]]

    def model_pars(self, m):
        m = self.modelc[m - 1]
        out = [m["off"]] + list(m["front"])
        for f in m["films"]:
            out += self.film_pars(f)
        return out + list(m["back"])

    def pars(self, o):
        o = self.objc[o - 1]
        return ([o["ln"]] if o["ln"] else []) + self.model_pars(o["m"])

    def rows(self, m, step, wav):
        """layer table of a model, None when undetermined"""
        mc = self.modelc[m - 1]
        s = self.models[m - 1].structure

        def x(c):
            return self.val(c, step["cell"][c - 1]["t"])

        rows = [[0.0, 1.0 + 0j]]
        for f in mc["films"]:
            fc = self.filmc[f - 1]
            n = oracle.cauchy(*[x(c) for c in self.matc[fc["m"] - 1]], wav)
            rows.append([x(fc["th"]), n, x(fc["vf"])])
        rows.append([0.0, self.nback])
        if self.settings[m][1]:
            rows = rows[::-1]
        solv = rows[-1][1]
        for r in rows[1:-1]:
            if r[2] > 0:
                r[1] = safe_mix(self.settings[m][0], r[1], solv, r[2], 1 / 3)
            elif self.settings[m][0] != "linear" and safe_mix(self.settings[m][0], r[1], solv, 1e-12, 1 / 3) is None:
                r[1] = None
            if r[1] is None:
                return None
        return rows

    @property
    def settings(self):
        out = {}
        for i, m in enumerate(self.models, 1):
            out[i] = self._settings.setdefault(i, (m.structure.ema,
                                                   m.structure.reverse_structure))
        return out

    _settings = None

    def predict(self, m, step, wav, aoi, refl):
        rows = self.rows(m, step, wav)
        if rows is None:
            return None, None, None
        off = self.val(self.modelc[m - 1]["off"], step["cell"][self.modelc[m - 1]["off"] - 1]["t"])
        return oracle_point(rows, wav, aoi, refl, off)

    def residuals(self, o, step):
        """list of (psi residual, delta residual, tol, psi, delta), None where undetermined"""
        oc = self.objc[o - 1]
        d = self.datac[oc["d"] - 1]
        out = []
        for w, a, psi_d, delta_d in self.seen(d):
            psi, delta, tol = self.predict(oc["m"], step, w, a, d["refl"])
            if psi is None:
                out.append(None)
            else:
                out.append((psi - psi_d, oracle.circ(delta, delta_d), tol, psi, delta))
        return out

    def terms(self, o, step):
        oc = self.objc[o - 1]

        def x(c):
            return self.val(c, step["cell"][c - 1]["t"])

        t = 0.0
        for f in self.modelc[oc["m"] - 1]["films"]:
            if isinstance(self.films[f - 1], TermSlab):
                t += -((x(self.filmc[f - 1]["th"]) - 300.0) ** 2) / 2e4 - 0.25
        if oc["extra"]:
            n = sum(self.datac[oc["d"] - 1]["mask"])
            t += -0.5 * (x(self.modelc[oc["m"] - 1]["off"]) / 3.0) ** 2 - 0.125 * n
        return t

    def exp_logl(self, o, step):
        """expected log-likelihood and tolerance, None when undetermined"""
        res = self.residuals(o, step)
        if any(r is None for r in res):
            return None
        oc = self.objc[o - 1]
        d = self.datac[oc["d"] - 1]
        tot = tol = 0.0
        for rp, rd, t, psi, delta in res:
            vp = vd = 1.0
            if oc["ln"]:
                e = math.exp(2 * self.val(oc["ln"], step["cell"][oc["ln"] - 1]["t"]))
                off = self.val(self.modelc[oc["m"] - 1]["off"], step["cell"][self.modelc[oc["m"] - 1]["off"] - 1]["t"])
                raw = delta - off
                if not d["refl"] and (raw < 10 * t or raw > 360 - 10 * t):
                    return None
                vp, vd = 1 + e * psi * psi, 1 + e * delta * delta
            tot += rp * rp / vp + rd * rd / vd
            tol += (2 * (abs(rp) + abs(rd)) + 4 * t) * t + (rp * rp + rd * rd) * 4 * t
        return -0.5 * tot + self.terms(o, step), 1e-8 * (1 + abs(tot)) + tol

    def exp_logp(self, o, step):
        seen = {}
        for c in self.pars(o):
            if step["cell"][c - 1]["v"]:
                seen[c] = self.own_logp(c, step)
        return sum(seen.values()) if seen else 0.0

    # -------------------------------------------------------------- checks
    def check_state(self, step, tags, what):
        ens = self.case.ensure
        for i, c in enumerate(step["cell"]):
            p = self.par[i]
            x = self.val(i + 1, c["t"])
            ens(p.value == x, tags, "{}: parameter {} is {}, should be {}", what, p.name, p.value, x)
            ens(bool(p.vary) == c["v"], tags, "{}: parameter {} has vary {}, should be {}", what, p.name, p.vary, c["v"])
            b = p.bounds
            ens(type(b) is type(self.bnd[i]) and (not isinstance(b, Interval) or (b.lb, b.ub) == (
                self.bnd[i].lb, self.bnd[i].ub)), tags, "{}: bounds of {} are {}, should be {}", what, p.name, b,
                self.bnd[i])
        self.check_data(tags, what)

    def check_data(self, tags, what):
        ens = self.case.ensure
        for d, dc in zip(self.datas, self.datac):
            want = np.array(self.seen(dc)).T.reshape(4, -1)
            got = self.case.call(tags, what + ": reading the data", lambda: np.array([np.asarray(x, float) for x in d.data]))
            ens(got.shape == want.shape and np.array_equal(got[:3], want[:3]) and close(got[3], want[3], 1e-12, 1e-11),
                tags, "{}: the data are {}, should be {}", what, short(got), short(want))
            if self.rng.random() < 0.1:
                # the convention shows in what becomes of new data
                e = copy.deepcopy(d)
                e.data = [np.array([500.0]), np.array([60.0]), np.array([30.0]), np.array([300.0])]
                ens(close(np.asarray(e.delta, float), np.array([60.0 if dc["refl"] else 300.0]), 1e-12, 1e-12), tags,
                    "{}: delta convention changed", what)
            ens(np.array_equal(np.asarray(d.mask, bool), np.array(dc["mask"])), tags, "{}: the mask is {}, should be {}",
                what, d.mask, dc["mask"])

    def check_residuals(self, o, step, got, tags, what):
        ens = self.case.ensure
        exp = self.residuals(o, step)
        n = len(exp)
        got = np.asarray(got)
        ens(got.shape == (2 * n,), tags + " C01", "{}: {} residuals for {} unmasked points", what, got.shape, n)
        ens(np.all(got[n:] >= 0) and np.all(got[n:] <= 180), tags, "{}: delta residuals {} outside [0, 180]", what, got[n:])
        for i, e in enumerate(exp):
            if e is None:
                continue
            ens(abs(got[i] - e[0]) <= e[2], tags, "{}: psi residual {} of objective {} is {}, should be {}", what, i, o,
                got[i], e[0])
            ens(abs(got[n + i] - e[1]) <= e[2], tags + " C03",
                "{}: delta residual {} of objective {} is {}, should be {}", what, i, o, got[n + i], e[1])
        return got

    def check_lists(self, o, see, step):
        case = self.case
        T = "C17"
        got = list(flatten(case.call(T, "parameters", lambda: self.objs[o - 1].parameters)))
        want = [self.P(c) for c in self.pars(o)]
        case.ensure(same_list(got, want), T, "the parameters of objective {} are {}, should be {}", o,
                    [p.name for p in got], [p.name for p in want])
        got = list(case.call(T, "varying_parameters", self.objs[o - 1].varying_parameters))
        want = [self.P(c) for c in see["vary"]]
        case.ensure(same_list(got, want), T, "the varying parameters of objective {} are {}, should be {}", o,
                    [p.name for p in got], [p.name for p in want])

    def vector(self, step, ps, vs):
        k, t = step["k"], step["t"]
        if k == "none":
            return None
        if k == "bad":
            n = step["len"]
            v = [self.val(ps[i % len(ps)], (t + i) % 4) + 0.5 for i in range(n)]
        else:
            tgt = vs if k == "vary" else ps
            v = []
            for i, c in enumerate(tgt, 1):
                v.append(self.val(c, (t + i) % 4))
        f = self.rng.randrange(3)
        v = [np.array(v, float), list(v), tuple(v)][f]
        return self.case.own(v, "parameter vector")

    # ----------------------------------------------------------------- ops
    def step(self, s):
        op = s["op"]
        if op == "end":
            return
        self.case.steps += 1
        if op not in ("copy", "fit"):
            self.new_cells(s)
        getattr(self, "op_" + op.replace("-", "_"))(s)
        self.case.verify_owned(op)
        if op == "fit":
            return
        tags = {"eval": "C17", "predict": "C17 C23", "joint": "C17 C24", "look": "C19", "copy": "C20"}.get(op, "C23")
        if self.copies:
            tags += " C20"
        self.check_state(s, tags, op)
        self.probe(s)

    def probe(self, s):
        """after every step: what the objectives see"""
        op = s["op"]
        T = {"look": "C19 C23", "copy": "C20", "eval": "C23", "predict": "C23", "joint": "C23 C24"}.get(op, "C23")
        if self.copies:
            T += " C20"
        n = len(self.objs)
        todo = range(1, n + 1) if n <= 2 or self.case.prop in ("C23", "C03") else self.rng.sample(range(1, n + 1), 2)
        for o in todo:
            got = self.case.call(T + " C16", "residuals", self.objs[o - 1].residuals)
            self.check_residuals(o, s, got, T + " C16", "after " + op)

    def op_init(self, s):
        self._settings = {}
        for cs in s["mat"]:
            self.add_mat(cs)
        for f in s["film"]:
            self.add_film(f)
        for m in s["model"]:
            self.add_model(m)
        for d in s["data"]:
            self.add_data(d)
        for o in s["obj"]:
            self.add_obj(o)
        self.settings

    def op_film(self, s):
        self.add_film(s["film"])

    def op_model(self, s):
        self.add_model(dict(off=s["off"], films=s["films"], front=[1, 2, 3], back=[4, 5, 6]))
        self.settings

    def op_restack(self, s):
        st = self.models[s["m"] - 1].structure
        new = [self.films[f - 1] for f in s["films"]]
        n = len(st) - 2
        T = "C09 C17"
        call = self.case.call
        if self.rng.random() < 0.3:
            def change():
                st[1:-1] = new
            call(T, "structure[1:-1] = components", change)
        else:
            for i, f in enumerate(new[:n], 1):
                if st[i] is not f or self.rng.random() < 0.5:
                    call(T, "structure[i] = component", st.__setitem__, i, f)
            for f in new[n:]:
                call(T, "structure.insert", st.insert, -1, f)
            for _ in range(n - len(new)):
                call(T, "structure.pop", st.pop, -2)
        self.modelc[s["m"] - 1] = dict(self.modelc[s["m"] - 1], films=list(s["films"]))

    def op_data(self, s):
        self.add_data(s["d"])

    def op_obj(self, s):
        self.add_obj(s["o"])
        o = len(self.objs)
        self.check_lists(o, dict(vary=[c for i, c in enumerate(self.pars(o)) if s["cell"][c - 1]["v"]
                                       and c not in self.pars(o)[:i]]), s)

    def put(self, s, c):
        """make the real parameter what the specification says"""
        p, q = self.P(c), s["cell"][c - 1]
        if p.constraint is None:
            p.value = self.val(c, q["t"])
            p.vary = q["v"]
        b = self.bounds(q["r"], q["b"])
        p.bounds = b
        self.bnd[c - 1] = b

    def op_cell(self, s):
        self.P(s["c"]).value = self.val(s["c"], s["cell"][s["c"] - 1]["t"])

    def op_vary(self, s):
        self.P(s["c"]).vary = s["cell"][s["c"] - 1]["v"]

    def op_bounds(self, s):
        self.put(s, s["c"])

    def op_bulk(self, s):
        for c in range(1, len(s["cell"]) + 1):
            self.put(s, c)

    def op_link(self, s):
        self.P(s["c"]).constraint = self.P(s["to"])
        self.key[s["c"] - 1] = self.key[s["to"] - 1]

    def op_mask(self, s):
        mask = self.block(dict(mask=s["mask"]))["mask"]
        self.datas[s["d"] - 1].mask = self.case.own(np.array(mask, bool), "mask")
        self.datac[s["d"] - 1]["mask"] = mask

    def op_assign(self, s):
        cols = [self.case.own(np.array(x, float), "data column") for x in self.data_of(self.block(s["new"]))]
        self.datas[s["d"] - 1].data = cols
        self.datac[s["d"] - 1] = dict(self.block(s["new"]))

    # ---------------------------------------------------------- evaluation
    def same_cells(self, s, see, ps):
        if see["pars"] != ps:
            raise MachineryError(f"the driver's parameter list {ps} is not the specification's {see['pars']}")

    def op_eval(self, s):
        case, see = self.case, s["see"]
        o = see["o"]
        ob = self.objs[o - 1]
        self.same_cells(s, see, self.pars(o))
        self.check_lists(o, see, s)
        vec = self.vector(s, self.pars(o), see["vary"])
        q = s["q"]
        f = getattr(ob, q)
        if s["k"] == "bad":
            case.refused("C17", f"{q} with {s['len']} values for {len(see['vary'])} varying of {len(see['pars'])} parameters",
                         ValueError, f, vec)
            return
        before = CountingModel.evaluations
        if q == "setp":
            case.call("C17", "setp", f, vec)
            return
        T = {"logp": "C18", "logpost": "C18"}.get(q, "C16")
        got = case.call(T + " C17", q, f, vec) if vec is not None or self.rng.random() < 0.5 else case.call(T, q, f)
        self.check_quantity(o, s, q, got, T, CountingModel.evaluations - before)

    def check_quantity(self, o, s, q, got, T, evals=None):
        ens = self.case.ensure
        ob = self.objs[o - 1]
        if q == "residuals":
            self.check_residuals(o, s, got, T + " C17 C23", q)
            return
        if q == "chisqr":
            r = self.case.call(T, "residuals", ob.residuals)
            self.check_residuals(o, s, r, T + " C17", q)
            ens(close(got, float(np.sum(np.asarray(r) ** 2)), 1e-10, 1e-10), T, "chisqr is {}, sum of squares is {}", got,
                np.sum(np.asarray(r) ** 2))
            return
        lp = self.exp_logp(o, s)
        ok = math.isfinite(lp)
        if ok != s["see"]["ok"] if "o" in s["see"] else False:
            raise MachineryError("feasibility differs from the specification")
        if q == "logp":
            ens(close(got, lp, 1e-10, 1e-10) if ok else got == -math.inf, T, "logp of objective {} is {}, should be {}", o, got, lp)
            return
        if q == "logpost" and not ok:
            ens(got == -math.inf, T, "logpost is {} for an impossible prior", got)
            ens(not evals, T, "logpost evaluated the model {} times although the prior is impossible", evals)
            return
        if q == "logpost":
            ll = self.case.call(T, "logl", ob.logl)
            ens(close(got, lp + ll, 1e-9, 1e-9), T, "logpost of objective {} is {}, logp + logl is {} + {}", o, got, lp, ll)
        e = self.exp_logl(o, s)
        if e is not None:
            want = e[0] + (lp if q == "logpost" else 0.0)
            ens(abs(got - want) <= e[1] + 1e-9 * abs(want), T + " C16 C23", "{} of objective {} is {}, should be {}", q, o, got, want)

    def op_predict(self, s):
        case = self.case
        m = s["m"]
        mo = self.models[m - 1]
        self.same_cells(s, s, self.model_pars(m))
        got = list(flatten(case.call("C17", "model parameters", lambda: mo.parameters)))
        case.ensure(same_list(got, [self.P(c) for c in s["pars"]]), "C17", "the parameters of model {} are {}", m,
                    [p.name for p in got])
        vec = self.vector(s, s["pars"], s["vary"])
        ids = [self.rng.randrange(1, 8) for _ in range(self.rng.randrange(1, 5))]
        pts = case.own(np.array([self.point(i) for i in ids]), "evaluation points")
        if s["k"] == "bad":
            case.refused("C17", f"a model vector of {s['len']} values", ValueError, mo, pts, vec)
            return
        got = case.call("C23 C17", "model", mo, pts, vec) if vec is not None else case.call("C23", "model", mo, pts)
        T = "C23 C17"
        case.ensure(np.shape(got[0]) == np.shape(got[1]) == (len(ids),), T, "prediction of {} points is {}", len(ids), short(got))
        conv = self.flips[m - 1]
        for j, (w, a) in enumerate(pts):
            psi, delta, tol = self.predict(m, s, w, a, False)
            if psi is None:
                continue
            case.ensure(abs(got[0][j] - psi) <= tol, T, "psi of model {} at {} is {}, should be {}", m, (w, a), got[0][j], psi)
            cands = [self.predict(m, s, w, a, r)[1] for r in (conv or {False})]
            case.ensure(any(oracle.circ(got[1][j], x) <= tol for x in cands), T,
                        "delta of model {} at {} is {}, should be {}", m, (w, a), got[1][j], cands)

    def op_joint(self, s):
        case = self.case
        objs = [self.objs[o - 1] for o in s["os"]]
        g = case.call("C24", "GlobalObjective", GlobalObjective, objs)
        T = "C24"
        ps = [c for o in s["os"] for c in self.pars(o)]
        self.same_cells(s, s, ps)
        got = list(case.call(T, "varying_parameters", g.varying_parameters))
        case.ensure(same_list(got, [self.P(c) for c in s["vary"]]), T, "jointly varying parameters {}, should be {}",
                    [p.name for p in got], [self.P(c).name for c in s["vary"]])
        vec = self.vector(s, ps, s["vary"])
        q = s["q"]
        f = getattr(g, q)
        if s["k"] == "bad":
            case.refused("C17 C24", f"joint {q} with {s['len']} values", ValueError, f, vec)
            return
        before = CountingModel.evaluations
        got = case.call(T, "joint " + q, f, vec)
        evals = CountingModel.evaluations - before
        if q == "setp":
            return
        if q == "residuals":
            got = np.asarray(got)
            k = 0
            for o in s["os"]:
                n = 2 * sum(self.datac[self.objc[o - 1]["d"] - 1]["mask"])
                self.check_residuals(o, s, got[k:k + n], T, "joint residuals")
                k += n
            case.ensure(k == got.size, T, "{} joint residuals, should be {}", got.size, k)
            return
        if q == "chisqr":
            want = sum(case.call(T, "chisqr", self.objs[o - 1].chisqr) for o in s["os"])
            case.ensure(close(got, want, 1e-9, 1e-9), T, "joint chisqr {}, sum over objectives {}", got, want)
            for o in s["os"]:
                self.check_residuals(o, s, self.objs[o - 1].residuals(), T, "joint chisqr")
            return
        lp = [self.exp_logp(o, s) for o in s["os"]]
        for o, x, see in zip(s["os"], lp, s["see"]):
            if see["ok"] != math.isfinite(x):
                raise MachineryError("joint feasibility differs from the specification")
        ok = all(map(math.isfinite, lp))
        if q in ("logp", "logpost") and not ok:
            case.ensure(got == -math.inf, T + " C18", "joint {} is {} for an impossible prior", q, got)
            case.ensure(not evals, T, "joint {} evaluated the models for an impossible prior", q)
            return
        if q == "logp":
            case.ensure(close(got, sum(lp), 1e-9, 1e-9), T, "joint logp {}, sum over objectives {}", got, sum(lp))
            return
        ll = [case.call(T, "logl", self.objs[o - 1].logl) for o in s["os"]]
        want = sum(ll) + (sum(lp) if q == "logpost" else 0)
        case.ensure(close(got, want, 1e-9, 1e-9), T, "joint {} {}, sum over objectives {}", q, got, want)
        for o, x in zip(s["os"], ll):
            e = self.exp_logl(o, s)
            if e is not None:
                case.ensure(abs(x - e[0]) <= e[1] + 1e-9 * abs(e[0]), T, "logl of objective {} is {}, should be {}", o, x, e[0])

    # ------------------------------------------------------------- looking
    def snap(self):
        out = []
        for m in self.models:
            st = m.structure
            out.append([list(st.components), st.reverse_structure, st.solvent, st.ema,
                        getattr(st, "depolarisation_factor", None), m.delta_offset])
        return out

    def op_look(self, s):
        case, see = self.case, s["see"]
        o = see["o"]
        ob = self.objs[o - 1]
        T = "C19"
        before = self.snap()
        q0 = [case.call("C16", "residuals", ob.residuals), case.call("C16", "logl", ob.logl), case.call("C18", "logp", ob.logp)]
        st = ob.model.structure
        quiet = s["w"] in ("repr", "lists", "profile", "spsamples", "splot", "ptstructure")
        if quiet:
            # (the others evaluate the model) the wavelength the structure is described at is the user's setting as well
            st.wavelength = self.rng.choice([450.0, 633.0])
            sl0, wav = case.call("C10", "slabs", st.slabs), st.wavelength
        getattr(self, "look_" + s["w"])(s, o, ob)
        if quiet:
            case.ensure(st.wavelength == wav, T, "{} changed the structure's wavelength from {} to {}", s["w"], wav, st.wavelength)
            case.ensure(close(case.call(T, "slabs", st.slabs), sl0, 1e-12, 1e-12), T, "{} changed the slabs", s["w"])
        after = self.snap()
        for b, a in zip(before, after):
            case.ensure(same_list(b[0], a[0]) and b[1] == a[1] and b[2] is a[2] and b[3] == a[3] and b[4] == a[4]
                        and b[5] is a[5], T, "{} changed the structure: {} -> {}", s["w"], short(b[1:]), short(a[1:]))
        for i, p in enumerate(self.par):
            x = self.val(i + 1, s["cell"][i]["t"])
            case.ensure(p.value == x, T, "{} changed parameter {} from {} to {}", s["w"], p.name, x, p.value)
        q1 = [case.call(T, "residuals", ob.residuals), case.call(T, "logl", ob.logl), case.call(T, "logp", ob.logp)]
        case.ensure(close(q1[0], q0[0], 1e-12, 1e-10), T, "{} changed the residuals", s["w"])
        case.ensure(close(q1[1], q0[1], 1e-12, 1e-10) and (q1[2] == q0[2]), T,
                    "{} changed logl/logp from {} to {}", s["w"], q0[1:], q1[1:])

    def look_covar(self, s, o, ob):
        if not s["see"]["vary"]:
            return
        try:
            self.cov(ob)
        except np.linalg.LinAlgError:
            pass

    def cov(self, ob):
        try:
            return ob.covar()
        except np.linalg.LinAlgError:
            raise
        except Exception as e:
            self.case.ensure(False, "C19", "covar raised {}: {}", type(e).__name__, e)

    def look_str(self, s, o, ob):
        t = self.case.call("C19", "str", lambda: str(ob) + str(ob.model.structure) + str(ob.data))
        self.case.ensure(isinstance(t, str), "C19", "str is {}", t)

    def look_repr(self, s, o, ob):
        self.case.call("C19", "repr", lambda: repr(ob) + repr(ob.model) + repr(ob.data) + repr(ob.model.structure))

    def look_lists(self, s, o, ob):
        self.check_lists(o, s["see"], s)
        self.case.call("C19", "properties", lambda: (ob.npoints, ob.weighted, ob.model.parameters, ob.model.structure.parameters,
                                                     ob.data.data, len(ob.data), ob.model.logp()))
        list(ob.data.unique_wavelength_data())

    def look_profile(self, s, o, ob):
        st = ob.model.structure
        self.case.call("C19", "ri_profile", st.ri_profile)
        self.case.call("C19", "slabs", st.slabs)

    def prior_vec(self, s, o, u):
        out = []
        for x, c in zip(u, s["see"]["vary"]):
            b, r = s["cell"][c - 1]["b"], s["cell"][c - 1]["r"]
            lo, hi = BOX[r]
            if b == "box":
                out.append(lo + x * (hi - lo))
            elif b == "norm":
                out.append((lo + hi) / 2 + (hi - lo) / 2 * self.tight * stats.norm.ppf(x))
            else:
                return None
        return out

    def look_prior(self, s, o, ob):
        case = self.case
        for _ in range(2):
            u = [self.rng.choice([self.rng.random(), self.rng.random(), 0.5, 1e-6, 1e-3, 0.02, 0.98, 0.999, 1 - 1e-6, 0.0, 1.0])
                 for _ in s["see"]["vary"]]
            want = self.prior_vec(s, o, u)
            uu = case.own(np.array(u), "unit cube point") if self.rng.random() < 0.7 else case.own(u, "unit cube point")
            if want is None:
                try:
                    ob.prior_transform(uu)
                except RuntimeError:
                    pass
                continue
            got = case.call("C18 C19", "prior_transform", ob.prior_transform, uu)
            got = np.asarray(got, float)
            case.ensure(np.shape(got) == np.shape(want), "C18", "prior_transform of {} values gives {}", len(u), got)
            # (an unbounded prior is infinite at the corners of the unit cube)
            fin = np.isfinite(want)
            case.ensure(np.array_equal(got[~fin], np.array(want, float)[~fin]) and close(got[fin], np.array(want)[fin], 1e-9, 1e-12),
                        "C18", "prior_transform({}) is {}, should be {}", u, got, want)

    def with_chains(self, s):
        """give the varying parameters posterior samples"""
        n = 6
        ch = {}
        for c in s["see"]["vary"]:
            lo, hi = BOX[s["cell"][c - 1]["r"]]
            ch[c] = np.array([[self.rng.uniform(lo, hi) for _ in range(n)] for _ in range(2)])
            self.P(c).chain = ch[c]
        return ch

    def drop_chains(self, ch):
        for c in ch:
            self.P(c).chain = None

    def look_pgen(self, s, o, ob):
        case = self.case
        if not s["see"]["vary"]:
            return
        ch = self.with_chains(s)
        try:
            n = self.rng.choice([1, 4, 30])
            got = [np.array(v) for v in case.call("C19", "pgen", lambda: list(ob.pgen(ngen=n)))]
            case.ensure(len(got) == min(n, 12), "C19", "pgen yielded {} vectors", len(got))
            ps = self.pars(o)
            samples = {tuple(x) for x in zip(*[ch[c].ravel() for c in s["see"]["vary"]])}
            for v in got:
                case.ensure(v.shape == (len(ps),), "C19", "pgen vector has shape {}", v.shape)
                d = {}
                for c, x in zip(ps, v):
                    if c in ch:
                        d[c] = x
                    else:
                        case.ensure(x == self.val(c, s["cell"][c - 1]["t"]), "C19", "pgen changed fixed parameter {}", c)
                case.ensure(tuple(d[c] for c in s["see"]["vary"]) in samples, "C19", "pgen yielded something that is no sample")
        finally:
            self.drop_chains(ch)

    def look_spsamples(self, s, o, ob):
        import matplotlib.pyplot as plt

        st = ob.model.structure
        ch = self.with_chains(s)
        try:
            mine = [c for c in self.model_pars(self.objc[o - 1]["m"])[1:] if c in ch]
            if mine:
                self.case.call("C19", "structure.plot(samples)", st.plot, samples=self.rng.choice([1, 3]))
        finally:
            self.drop_chains(ch)
            plt.close("all")

    def look_splot(self, s, o, ob):
        import matplotlib.pyplot as plt

        st = ob.model.structure
        try:
            self.case.call("C19", "structure.plot", st.plot, align=self.rng.choice([0, 0, -2]))
        finally:
            plt.close("all")

    def curves(self, s, o, axt, xaxis, what, aoi0=None):
        """every delta curve follows the dataset's convention"""
        case = self.case
        oc = self.objc[o - 1]
        d = self.datac[oc["d"] - 1]
        rows = self.seen(d)
        lines = [l for l in axt.get_lines() if len(l.get_xdata()) > 5]
        others = sorted({r[0] for r in rows}) if xaxis == "aoi" else (sorted({r[1] for r in rows}) if aoi0 is None else [aoi0])
        case.ensure(len(lines) == len(others), "C03", "{}: {} delta curves for {} data", what, len(lines), others)
        for l in lines:
            x, y = np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)
            idx = sorted(self.rng.sample(range(len(x)), 6))
            fit = []
            for v in others:
                bad = None
                for i in idx:
                    w, a = (v, x[i]) if xaxis == "aoi" else (x[i], v)
                    _, delta, tol = self.predict(oc["m"], s, w, a, d["refl"])
                    if delta is not None and oracle.circ(y[i], delta) > tol:
                        bad = (w, a, y[i], delta)
                        break
                if bad is None:
                    break
                fit.append(bad)
            else:
                case.ensure(False, "C03", "{}: the delta curve does not follow the data's convention (reflected: {}): {}", what,
                            d["refl"], fit[:2])

    def look_plot(self, s, o, ob):
        import matplotlib.pyplot as plt

        rows = self.seen(self.datac[self.objc[o - 1]["d"] - 1])
        try:
            xaxis = self.rng.choice([None, "aoi", "wavelength"])
            fig, ax = self.case.call("C19 C03", "ObjectiveSE.plot", ob.plot, xaxis=xaxis)
            if xaxis is None:
                xaxis = "aoi" if len({r[1] for r in rows}) > 1 else "wavelength"
            if len(fig.axes) == 2:
                self.curves(s, o, [a for a in fig.axes if a is not ax][0], xaxis, "ObjectiveSE.plot")
        finally:
            plt.close("all")

    def look_ellips(self, s, o, ob):
        import matplotlib.pyplot as plt

        pt = plottools()
        rows = self.seen(self.datac[self.objc[o - 1]["d"] - 1])
        try:
            fig, axs = plt.subplots(1, 2)
            xaxis = self.rng.choice(["aoi", "wavelength"])
            if self.rng.random() < 0.6:
                kw = dict(objective=ob)
                if self.rng.random() < 0.5:
                    kw["resax"] = axs[1]
            else:
                kw = dict(data=ob.data, model=ob.model)
            self.case.call("C19 C03", "plot_ellipsdata", pt.plot_ellipsdata, axs[0], xaxis=xaxis, **kw)
            tw = [a for a in fig.axes if a is not axs[0] and a is not axs[1]]
            if len(tw) == 1:
                # angles below 0 or above 90 may be drawn, compare only real ones
                self.curves(s, o, tw[0], xaxis, "plot_ellipsdata", rows[0][1] if xaxis == "wavelength" else None)
        finally:
            plt.close("all")

    def look_ptstructure(self, s, o, ob):
        import matplotlib.pyplot as plt

        pt = plottools()
        try:
            fig, ax = plt.subplots()
            kw = dict(objective=ob) if self.rng.random() < 0.5 else dict(structure=ob.model.structure)
            self.case.call("C19", "plot_structure", pt.plot_structure, ax, reverse_structure=self.rng.random() < 0.5, **kw)
        finally:
            plt.close("all")

    # -------------------------------------------------------------- copies
    def op_copy(self, s):
        case = self.case
        T = "C20"
        o = s["o"]
        ob = self.objs[o - 1]
        oc = self.objc[o - 1]
        if s["how"] == "pickle":
            new = case.call(T, "pickle", lambda: pickle.loads(pickle.dumps(ob)))
        else:
            new = case.call(T, "deepcopy", copy.deepcopy, ob)
        to = dict(zip(s["from"], s["to"]))
        ps = self.pars(o)
        got = list(flatten(new.parameters))
        case.ensure(len(got) == len(ps), T, "the copy has {} parameters, the original {}", len(got), len(ps))
        n = len(self.par)
        self.par += [None] * len(to)
        self.bnd += [None] * len(to)
        self.key += [None] * len(to)
        for c, p in zip(ps, got):
            k = to[c] - 1
            case.ensure(all(p is not q for q in self.par[:n]), T, "the copy shares parameter {} with the original", p.name)
            case.ensure(self.par[k] is None or self.par[k] is p, T, "the copy lost the sharing of parameter {}", p.name)
            case.ensure(all(q is not p for i, q in enumerate(self.par[n:]) if i + n != k), T,
                        "the copy merged different parameters ({})", p.name)
            self.par[k] = p
            self.bnd[k] = copy.deepcopy(self.bnd[c - 1])
            self.key[k] = self.key[c - 1]
        # parts
        m = new.model
        st, old = m.structure, self.models[oc["m"] - 1]
        case.ensure(type(m) is type(old) and type(st) is type(old.structure) and type(new) is type(ob) and type(new.data) is
                    type(ob.data), T, "the copy has parts of another type")
        comps, ocomps = list(st.components), list(old.structure.components)
        case.ensure(len(comps) == len(ocomps), T, "the copy has {} components, the original {}", len(comps), len(ocomps))
        case.ensure((st.reverse_structure, st.ema) == (old.structure.reverse_structure, old.structure.ema)
                    and (st.solvent is None) == (old.structure.solvent is None), T, "the copy has other settings")
        case.ensure(not any(a is b for a in comps for b in ocomps), T, "the copy shares components")
        for i in range(len(comps)):
            for j in range(i):
                case.ensure((comps[i] is comps[j]) == (ocomps[i] is ocomps[j]), T, "the copy shares components differently")
                case.ensure((getattr(comps[i], "ri", None) is getattr(comps[j], "ri", None))
                            == (ocomps[i].ri is ocomps[j].ri), T, "the copy shares materials differently")
        md = self.modelc[oc["m"] - 1]
        nm, nf = len(self.mats), len(self.films)
        for mm in s["ms"]:
            f = next(i for i in md["films"] if self.filmc[i - 1]["m"] == mm)
            self.mats.append(comps[1 + md["films"].index(f)].ri)
            self.matc.append([to[c] for c in self.matc[mm - 1]])
        for f in s["fs"]:
            self.films.append(comps[1 + md["films"].index(f)])
            fc = self.filmc[f - 1]
            self.filmc.append(dict(th=to[fc["th"]], ro=to[fc["ro"]], vf=to[fc["vf"]], m=nm + 1 + s["ms"].index(fc["m"])))
        self.models.append(m)
        self.flips.append(set(self.flips[oc["m"] - 1]))
        self.modelc.append(dict(off=to[md["off"]], films=[nf + 1 + s["fs"].index(f) for f in md["films"]],
                                front=[to[c] for c in md["front"]], back=[to[c] for c in md["back"]]))
        self._settings[len(self.models)] = self.settings[oc["m"]]
        self.datas.append(new.data)
        self.datac.append(dict(self.datac[oc["d"] - 1]))
        self.objs.append(new)
        self.objc.append(dict(oc, m=len(self.models), d=len(self.datas), ln=to[oc["ln"]] if oc["ln"] else 0))
        self.copies += 1
        k = len(self.objs)
        for q in ("logp", "logl", "logpost", "chisqr"):
            a, b = case.call(T, q, getattr(ob, q)), case.call(T, q + " of the copy", getattr(new, q))
            case.ensure(a == b or close(b, a, 1e-12, 1e-12), T, "{} is {}, of the copy {}", q, a, b)
        self.check_lists_as(T, k, s)

    def check_lists_as(self, T, k, s):
        got = [id(p) for p in self.objs[k - 1].varying_parameters()]
        ps = self.pars(k)
        want = []
        for c in ps:
            if s["cell"][c - 1]["v"] and id(self.P(c)) not in want:
                want.append(id(self.P(c)))
        self.case.ensure(got == want, T, "the copy varies other parameters")

    # ---------------------------------------------------------------- fits
    def op_fit(self, s):
        case = self.case
        T = "C24"
        prev = self.last
        s = dict(s, cell=prev["cell"])
        objs = [self.objs[o - 1] for o in s["os"]]
        linked = any(self.P(c).constraint is not None for c in s["pars"])
        target = objs[0] if len(objs) == 1 and (linked or self.rng.random() < 0.8) else GlobalObjective(objs)
        vs = s["vary"]
        kinds = [prev["cell"][c - 1]["b"] for c in vs]
        toks = [prev["cell"][c - 1]["t"] for c in vs]
        # refnx starts a fit from within the bounds of the parameters, and takes
        # the central 99% of a normal prior for them
        if any(k == "norm" and (t > 1 or self.tight != 1) for k, t in zip(kinds, toks)):
            return
        w = s["w"]
        if w == "differential_evolution" and any(k not in ("box", "norm") for k in kinds):
            w = "least_squares"
        fixed = [(p, p.value) for i, p in enumerate(self.par) if (i + 1) not in vs and p.constraint is None]
        got = list(target.varying_parameters())
        case.ensure(same_list(got, [self.P(c) for c in vs]), T, "the fit varies {}, should vary {}", [p.name for p in got],
                    [self.P(c).name for c in vs])
        chi0, nll0 = target.chisqr(), -target.logl()
        np.random.seed(self.rng.randrange(2**31))
        before = self.snap()
        fitter = case.call(T, "CurveFitter", CurveFitter, target, nwalkers=2 * len(vs) + 2)
        if w == "sample":
            self.sample(s, fitter, vs, kinds)
        else:
            kw = {}
            if w == "differential_evolution":
                kw = dict(popsize=2, maxiter=3, tol=1e3, seed=self.rng.randrange(10**6), polish=False)
            elif w == "L-BFGS-B":
                kw = dict(options=dict(maxiter=4))
            else:
                kw = dict(max_nfev=40)
            res = None
            try:
                res = case.call(T, "fit " + w, self.tolerant(fitter.fit), w, verbose=False, **kw)
            except np.linalg.LinAlgError:
                pass
            if isinstance(res, np.linalg.LinAlgError):
                res = None
            if res is not None and getattr(res, "success", False):
                x = [self.P(c).value for c in vs]
                case.ensure(close(np.array(x), np.asarray(res.x, float), 1e-12, 1e-14), T,
                            "after the fit the parameters are {}, the solution is {}", x, res.x)
                if w == "least_squares":
                    c1 = target.chisqr()
                    case.ensure(c1 <= chi0 * (1 + 1e-6) + 1e-9, T, "the fit made chi-squared worse: {} -> {}", chi0, c1)
                if w == "L-BFGS-B":
                    c1 = -target.logl()
                    case.ensure(c1 <= nll0 + 1e-6 * abs(nll0) + 1e-9, T, "the fit made -logl worse: {} -> {}", nll0, c1)
        for c, k in zip(vs, kinds):
            lo, hi = BOX[prev["cell"][c - 1]["r"]]
            x = self.P(c).value
            e = 1e-9 * (abs(lo) + abs(hi))
            case.ensure(math.isfinite(x) and not (k in ("box", "low") and x < lo - e) and not (k in ("box", "high") and x > hi + e),
                        T, "{} left parameter {} at {}, outside its bounds ({} {})", w, self.P(c).name, x, k, (lo, hi))
        for p, x in fixed:
            case.ensure(p.value == x, T, "{} changed fixed parameter {} from {} to {}", w, p.name, x, p.value)
        for i, c in enumerate(prev["cell"]):
            case.ensure(bool(self.par[i].vary) == c["v"], T, "{} changed a vary flag", w)
            case.ensure(type(self.par[i].bounds) is type(self.bnd[i]), T, "{} changed bounds", w)
        for b, a in zip(before, self.snap()):
            case.ensure(same_list(b[0], a[0]) and b[1] == a[1] and b[2] is a[2] and b[3] == a[3], T, "{} changed a structure", w)
        self.check_data(T, w)

    @staticmethod
    def tolerant(f):
        def g(*a, **k):
            try:
                return f(*a, **k)
            except np.linalg.LinAlgError as e:
                return e
        return g

    def sample(self, s, fitter, vs, kinds):
        case = self.case
        T = "C24"
        seed = self.rng.randrange(2**31)
        if all(k in ("box", "norm") for k in kinds) and self.rng.random() < 0.5:
            case.call(T, "initialise", fitter.initialise, "prior", random_state=seed)
        else:
            case.call(T, "initialise", fitter.initialise, "jitter", random_state=seed)
        steps = 3
        try:
            fitter.sample(steps, random_state=seed, verbose=False, pool=1)
        except ValueError as e:
            # the walkers are close to each other: emcee declines
            case.ensure("condition number" in str(e), T, "sample raised ValueError: {}", e)
            return
        except Exception as e:
            case.ensure(False, T, "sample raised {}: {}", type(e).__name__, e)
        nw = 2 * len(vs) + 2
        for c, k in zip(vs, kinds):
            p = self.P(c)
            ch = np.asarray(p.chain)
            case.ensure(ch.size == steps * nw, T, "the chain of {} has shape {}", p.name, ch.shape)
            case.ensure(close(p.value, float(np.median(ch)), 1e-9, 1e-9), T, "{} is {}, the median of its samples {}", p.name,
                        p.value, np.median(ch))
            lo, hi = BOX[self.last["cell"][c - 1]["r"]]
            case.ensure(not (k in ("box", "low") and np.min(ch) < lo) and not (k in ("box", "high") and np.max(ch) > hi), T,
                        "samples of {} outside its bounds", p.name)


_PT = []


def plottools():
    if not _PT:
        import importlib.util
        import os

        repo = os.environ.get("MBV_REPO", "/repo")
        sp = importlib.util.spec_from_file_location("plottools_ut", os.path.join(repo, "tools", "plottools.py"))
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        _PT.append(m)
    return _PT[0]


def replay(case, beh, opts):
    import matplotlib

    if opts.get("what") == "circle":
        return circle(case, beh)
    matplotlib.use("Agg", force=False)
    w = World(case, opts)
    for s in beh:
        w.step(s)
        w.last = s


def circle(case, beh):
    """circular_distance against separations computed by TLC"""
    from refellips.objectiveSE import circular_distance

    T = "C16"
    case.steps += 1
    rng = case.rng
    P = rng.choice([360.0, 360.0, 2 * math.pi, 180.0])
    q = P / beh["p"]
    a, b, d = beh["a"] * q, beh["b"] * q, beh["d"] * q
    n = rng.randrange(1, 4)
    form = rng.randrange(4)
    kw = dict(period=P) if P != 360.0 or rng.random() < 0.5 else {}
    if form == 0:
        x, y = a, b
    elif form == 1:
        x, y = case.own(np.full(n, a), "angles"), case.own(np.full(n, b), "angles")
    elif form == 2:
        x, y = case.own(np.full(n, a), "angles"), b
    else:
        x, y = a, case.own(np.array([b + k * P for k in range(n)]), "angles")
    for u, v in ((x, y), (y, x)):
        got = case.call(T, "circular_distance", circular_distance, u, v, **kw)
        case.ensure(close(got, np.full(np.broadcast(u, v).shape, d), 0, 1e-9 * P), T,
                    "circular_distance({}, {}, {}) is {}, should be {}", u, v, P, got, d)
        case.ensure(np.all(np.asarray(got) >= 0) and np.all(np.asarray(got) <= P / 2 * (1 + 1e-12)), T,
                    "circular_distance({}, {}) is {}, outside [0, half a turn]", u, v, got)
    case.verify_owned("circular_distance")
