"""Replays behaviours of spec/Dataset.tla in refellips.DataSE."""
import copy
import io
import os
import pickle
import shutil
import tempfile
from pathlib import Path

import numpy as np

from .core import Violation, short


def concrete_points(case, n, size):
    """Values of the point tokens 1..n: even ones have delta > 180.  A token
    stands for a block of `size` consecutive measurements."""
    rng = case.rng
    k = rng.choice([1, 2, 3, 3, n * size])
    wl = [round(rng.uniform(200, 1700), rng.choice([0, 1, 6])) for _ in range(k)]
    ao = [rng.choice([45.0, 60.0, 65.5, 75.0, rng.uniform(1, 89)]) for _ in range(2)]
    pts = {}
    used = set()
    for p in [p for p in range(1, n + 1) for _ in range(size)]:
        for _ in range(9):
            psi = rng.choice([rng.uniform(0, 90), round(rng.uniform(0, 90), 2),
                              rng.uniform(0, 90) * 1e-7, rng.uniform(0, 1e-200)])
            if rng.random() < 0.02:
                psi = np.nan  # the instrument couldn't tell
            if p % 2:
                d = rng.choice([rng.uniform(0, 180), round(rng.uniform(0, 180), 3),
                                180.0, 0.0, rng.uniform(0, 1e-9), np.nextafter(180, 0),
                                rng.uniform(-180, 0)])
                if rng.random() < 0.02:
                    d = np.nan
            else:
                d = rng.choice([rng.uniform(180.001, 360), round(rng.uniform(181, 359), 3),
                                360.0, np.nextafter(180, 360), 270.0, rng.uniform(360, 540)])
            if psi not in used and d not in used:
                break
        used |= {psi, d}
        pts.setdefault(p, []).append((rng.choice(wl), rng.choice(ao), float(psi), float(d)))
    return pts


def value(pts, row):
    """The numbers of a specification row <<p, reflected>>."""
    p, r = row
    return [(w, a, psi, (360 - d if r else d)) for w, a, psi, d in pts[p]]


def table(pts, rows):
    return np.array([v for r in rows for v in value(pts, r)], float).reshape(-1, 4).T


def eq(a, b):
    return np.array_equal(a, b, equal_nan=True)


def near(a, b):
    return np.allclose(a, b, rtol=0, atol=1e-9, equal_nan=True)


class World:
    def __init__(self, case, beh):
        from refellips.dataSE import DataSE

        self.DataSE = DataSE
        self.case = case
        self.dir = tempfile.mkdtemp(prefix="ds", dir=case.scratch)
        npts = max([1] + [p for s in beh for p in s.get("pts", [])])
        self.size = case.rng.choice([1, 1, 1, 1, 2, 7, 40])
        if case.rng.random() < 0.01:
            self.size = 400
        self.pts = concrete_points(case, npts, self.size)
        self.d = {}
        self.bytes = {}
        self.fixed = case.rng.random() < 0.5
        # files with other delimiters (saving always writes tabs)
        self.delim = "\t"
        if case.rng.random() < 0.15 and not any(s["op"] == "Save" for s in beh):
            self.delim = case.rng.choice([",", ";", " "])
        self.kw = {} if self.delim == "\t" and case.rng.random() < 0.8 else dict(delimiter=self.delim)
        self.later = None

    def path(self, f):
        return os.path.join(self.dir, f + ".txt")

    # ---- arguments
    def data_arg(self, ps):
        arr = table(self.pts, [(p, False) for p in ps])
        form = self.case.rng.randrange(4)
        if form == 0:
            a = np.array(arr)
        elif form == 1:
            a = [np.array(x) for x in arr]
        elif form == 2:
            a = tuple(np.array(x) for x in arr)
        else:
            # views of a larger table that belongs to the caller
            big = np.array(np.vstack([arr, arr]).T, order=self.case.rng.choice("CF"))
            self.case.own(big, "data table")
            a = [big[:, i] for i in range(4)]
        for i, x in enumerate(a):
            if form:
                self.case.own(x, f"data column {i}")
        return self.case.own(a, "data")

    def mask_arg(self, m):
        rng = self.case.rng
        if m["form"] == "none":
            return None
        if m["form"] == "all":
            v = m["val"][0]
            return rng.choice([v, int(v), np.bool_(v), [v]])
        v = self.blocks(m["val"])
        f = rng.randrange(4)
        a = [list(v), np.array(v, bool), tuple(v), np.array(v, int)][f]
        if f < 2 and rng.random() < 0.3:
            # the caller goes on using the array for something else
            self.later = a
            return a
        return self.case.own(a, "mask")

    def blocks(self, mask):
        return [x for x in mask for _ in range(self.size)]

    def source(self, f, kind, mode="r"):
        p = self.path(f)
        if kind == "str":
            return p, None
        if kind == "path":
            return Path(p), None
        rng = self.case.rng
        if mode == "w":
            m = rng.choice(["w", "wb"])
            h = open(p, m)
            if rng.random() < 0.3:
                # the caller has written something already
                self.preamble = "".join(f"# note {i}\n" for i in range(rng.randint(1, 3)))
                h.write(self.preamble.encode() if "b" in m else self.preamble)
        else:
            lead = rng.randint(1, 3) if rng.random() < 0.3 else 0
            if not lead and rng.random() < 0.5:
                h = open(p, "r")
            else:
                # the caller has read the lines before the dataset already
                h = io.StringIO("11\t22\t33\t44\n" * lead + open(p).read())
                for _ in range(lead):
                    h.readline()
        return h, h

    # ---- observations
    def observe(self, step):
        case = self.case
        op = step["op"]
        filetouch = op in ("Open", "Load", "Refresh") 
        for h, exp in step["obs"].items():
            if not exp["live"]:
                continue
            d = self.d[h]
            mine = step.get("h") == h
            where = f"{op} -> dataset {h}"
            got = case.call(self.optags(op, mine), where + ": reading the data", lambda: d.data)
            want = table(self.pts, exp["seen"])
            mask = np.asarray(d.mask)
            if filetouch and mine:
                # the mask after loading
                mwant = np.array(self.blocks(exp["mask"]), bool)
                n_all = len(mwant)
                case.ensure(mask.ndim == 1 and (mask.size != n_all or np.array_equal(mask, mwant)),
                            "C01", "{}: mask is {} not {}", where, mask, mwant)
            shapes = [np.shape(x) for x in got]
            tag = "C02" if (filetouch and mine) else "C01"
            case.ensure(len(got) == 4 and len(set(shapes)) == 1, tag + " C01",
                        "{}: views have shapes {}", where, shapes)
            case.ensure(shapes[0] == (want.shape[1],), tag,
                        "{}: {} points are visible, expected {} of {} (mask {})", where,
                        shapes[0], want.shape[1], len(exp["all"]), exp["mask"])
            for i, nm in enumerate(("wavelength", "angle", "psi")):
                case.ensure(eq(got[i], want[i]), tag,
                            "{}: {} is {} not {}", where, nm, got[i], want[i])
            if not eq(got[3], want[3]):
                raw = table(self.pts, [(p, False) for p, _ in exp["seen"]])[3]
                flipd = table(self.pts, [(p, p % 2 == 0) for p, _ in exp["seen"]])[3]
                both = np.all((got[3] == raw) | (np.abs(got[3] - flipd) < 1e-9) | (np.isnan(got[3]) & np.isnan(raw)))
                # 360 - delta, rounding allowed
                if both and near(got[3], want[3]):
                    pass
                else:
                    case.ensure(False, "C03" if both else tag + " C03",
                                "{}: delta is {} not {} (reflected={})", where,
                                got[3], want[3], exp["flip"])
            # individual views, length, per-wavelength iteration
            views = case.call("C01", where, lambda: (d.wavelength, d.aoi, d.psi, d.delta))
            case.ensure(all(eq(x, y) for x, y in zip(views, got)), "C01",
                        "{}: the views and the 4-tuple differ", where)
            n = case.call("C01", where + ": len", len, d)
            case.ensure(n == want.shape[1], "C01", "{}: len is {} not {}", where, n, want.shape[1])
            case.ensure(np.array_equal(np.asarray(d.mask, bool), np.array(self.blocks(exp["mask"]), bool)),
                        "C01", "{}: mask is {} not {}", where, d.mask, exp["mask"])
            if mine or case.rng.random() < 0.2:
                self.iterate(d, got, where)
            if case.rng.random() < 0.3:
                s = case.call("C01", where + ": str", str, d)
                r = case.call("C01", where + ": repr", repr, d)
        self.observe_files(step)
        case.verify_owned(op)

    def iterate(self, d, got, where):
        case = self.case
        it = case.call("C01", where + ": per-wavelength iteration",
                       lambda: list(d.unique_wavelength_data()))
        ws = [float(np.asarray(x[0])) for x in it]
        case.ensure(ws == sorted(set(got[0].tolist())), "C01",
                    "{}: iteration yields wavelengths {}", where, ws)
        for w, a, p, de in it:
            sel = got[0] == w
            case.ensure(eq(a, got[1][sel]) and eq(p, got[2][sel])
                        and eq(de, got[3][sel]), "C01",
                        "{}: iteration mixes up the points of wavelength {}", where, w)

    @staticmethod
    def optags(op, mine):
        if not mine:
            return "C01"
        return {"Open": "C02", "Load": "C02", "Refresh": "C02", "Save": "C02",
                "Clone": "C20"}.get(op, "C01 C03")

    def observe_files(self, step):
        case = self.case
        for f, exp in step["fobs"].items():
            p = self.path(f)
            if not exp["there"]:
                case.ensure(not os.path.exists(p), "C02", "{} created file {}", step["op"], f)
                continue
            with open(p, "rb") as fh:
                now = fh.read()
            if step.get("f") == f and step["op"] in ("Save", "Rewrite"):
                self.bytes[f] = now
                if step["op"] == "Save":
                    case.ensure(now.startswith(self.preamble.encode()), "C02",
                                "Save overwrote what precedes the dataset in an open file")
                    rows = []
                    for line in now.decode("utf8").splitlines():
                        line = line.split("#")[0].replace(",", " ").split()
                        if line:
                            rows.append([float(x) for x in line])
                    want = table(self.pts, exp["rows"]).T
                    got = np.array(rows, float).reshape(-1, 4) if rows else np.zeros((0, 4))
                    case.ensure(got.shape == want.shape, "C02",
                                "Save wrote {} rows, the dataset has {}", got.shape, want.shape)
                    case.ensure(eq(got[:, :3], want[:, :3])
                                and near(got[:, 3], want[:, 3]),
                                "C02", "Save wrote {} for {}", short(got), short(want))
            else:
                case.ensure(now == self.bytes[f], "C02", "{} changed file {}", step["op"], f)

    # ---- operations
    def step(self, s):
        op, case, rng = s["op"], self.case, self.case.rng
        D = self.DataSE
        if op == "New":
            kw = dict(self.kw)
            m = self.mask_arg(s["m"])
            if m is not None or rng.random() < 0.3:
                kw["mask"] = m
            if s["rf"] or rng.random() < 0.5:
                kw["reflect_delta"] = s["rf"]
            if rng.random() < 0.5:
                kw["sample"] = rng.choice(["a", "b"])
            self.d[s["h"]] = case.call("C01 C03", "construction", D, self.data_arg(s["pts"]),
                                       name=s["h"], **kw)
        elif op == "NewFrom":
            kw = dict(self.kw)
            m = self.mask_arg(s["m"])
            if m is not None:
                kw["mask"] = m
            if s["rf"]:
                kw["reflect_delta"] = True
            self.d[s["h"]] = case.call("C01 C20", "construction from a dataset", D, self.d[s["g"]], **kw)
        elif op == "Open":
            src, fh = self.source(s["f"], s["kind"])
            m = self.mask_arg(s["m"])
            kw = dict(self.kw) if m is None else dict(self.kw, mask=m)
            try:
                self.d[s["h"]] = case.call("C02", f"opening a file ({s['kind']})", D, src,
                                           reflect_delta=s["rf"], **kw)
            finally:
                if fh is not None and rng.random() < 0.5:
                    fh.close()
        elif op == "Clone":
            g = self.d[s["g"]]
            f = {"copy": copy.copy, "deepcopy": copy.deepcopy,
                 "pickle": lambda x: pickle.loads(pickle.dumps(x))}[s["how"]]
            if s["how"] != "copy" and not isinstance(g.filename, (str, Path, type(None))):
                f = copy.copy  # an open handle can't be pickled
            new = self.d[s["h"]] = case.call("C20", s["how"], f, g)
            case.ensure(new.metadata == g.metadata and new.name == g.name, "C20",
                        "{}: metadata {} and name {}, the original has {} and {}", s["how"], new.metadata, new.name,
                        g.metadata, g.name)
            if f is not copy.copy:
                before = dict(g.metadata)
                for a, b in ((new, g), (g, new)):
                    case.call("C20", "changing metadata", a.metadata.__setitem__, "note", [1])
                    case.ensure("note" not in b.metadata, "C20", "changing the metadata of one copy changes the other's")
                    del a.metadata["note"]
                case.ensure(g.metadata == before, "C20", "the metadata of the original changed")
            # from here on: the copy and the original are equivalent and independent
            case.extra_tags.add("C20")
        elif op == "SetMask":
            m = self.mask_arg(s["m"])
            case.call("C01", "assigning a mask", setattr, self.d[s["h"]], "mask", m)
        elif op == "Assign":
            case.call("C01 C03", "assigning data", setattr, self.d[s["h"]], "data",
                      self.data_arg(s["pts"]))
        elif op == "Save":
            self.preamble = ""
            src, fh = self.source(s["f"], s["kind"], "w")
            case.call("C02", f"saving ({s['kind']})", self.d[s["h"]].save, src)
            if fh is not None:
                fh.close()
        elif op == "Load":
            src, fh = self.source(s["f"], s["kind"])
            case.call("C02", f"loading ({s['kind']})", self.d[s["h"]].load, src)
            if fh is not None:
                fh.close()
        elif op == "Refresh":
            case.call("C02", "refresh", self.d[s["h"]].refresh)
        elif op == "Rewrite":
            lines = []
            n = s["hdr"] if rng.random() < 0.8 else s["hdr"] * rng.randint(1, 50)
            for i in range(n):
                lines.append(rng.choice(["# a comment", "wavelength\tAOI\tPsi\tDelta",
                                         "nm\tdeg\tdeg\tdeg", "# 1\t2\t3\t4", "sample x", ""]))
            fixed = self.fixed or rng.random() < 0.2
            if fixed:
                # files with equally many rows are equally long
                lines = ["#" * 40] * (1 if s["hdr"] else 0)
            for row in table(self.pts, [(p, False) for p in s["pts"]]).T:
                lines.append(self.delim.join(f"{x:+027.17e}" if fixed and x == x else repr(float(x)) for x in row))
            path = self.path(s["f"])
            old = os.stat(path) if os.path.exists(path) else None
            with open(path, "w") as fh:
                fh.write("\n".join(lines) + ("\n" if fixed else rng.choice(["", "\n"])))
            if old is not None and rng.random() < 0.3:
                # within the resolution of the file system's clock
                os.utime(path, ns=(old.st_atime_ns, old.st_mtime_ns))
        else:
            raise AssertionError(op)


def replay(case, beh, opts):
    w = World(case, beh)
    try:
        for s in beh:
            w.step(s)
            if w.later is not None:
                for i, x in enumerate(w.later):
                    w.later[i] = not x
                w.later = None
            w.observe(s)
            case.steps += 1
        final(w, beh[-1])
    finally:
        shutil.rmtree(w.dir, ignore_errors=True)


def final(w, last):
    """Clearing every mask brings all the points back."""
    case = w.case
    for h, exp in last["obs"].items():
        if exp["live"]:
            d = w.d[h]
            case.call("C01", "clearing the mask", setattr, d, "mask", None)
            want = table(w.pts, exp["all"])
            got = d.data
            case.ensure(all(np.shape(g) == (want.shape[1],) for g in got), "C01",
                        "clearing the mask of {} gives {} points, expected {}", h,
                        np.shape(got[0]), want.shape[1])
            case.ensure(all(near(g, x) for g, x in zip(got, want)),
                        "C01", "hidden points of {} changed: {} not {}", h, short(got), short(want))
