"""Writes instrument files described by spec/{EP4,M2000,FilmSense,Horiba}.tla
and compares what the real readers return with what the specification says."""
import os
import tempfile
from pathlib import Path

import numpy as np

from .core import short


def tmpname(case, suffix):
    fd, p = tempfile.mkstemp(suffix=suffix, dir=case.scratch)
    os.close(fd)
    return p


def fmt(case, x):
    return repr(float(x))


def rnd(case, lo, hi):
    nd = case.rng.choice([1, 3, 4, 12])
    return round(case.rng.uniform(lo, hi), nd)


def write(case, path, lines):
    nl = case.rng.choice(["\n", "\r\n"])
    with open(path, "w", newline="") as f:
        f.write(nl.join(lines) + nl)


def opener(case, path, allow_handle=True):
    """str, Path or open text handle."""
    k = case.rng.randrange(3 if allow_handle else 2)
    if k == 0:
        return path, None
    if k == 1:
        return Path(path), None
    h = open(path, "r")
    return h, h


def columns(case, tag, d, what):
    got = case.call(tag, what + ": reading the data", lambda: d.data)
    return [np.asarray(x, float) for x in got]


def compare(case, tag, d, want, what, atol=1e-9, rtol=1e-12, angle_atol=None):
    """want: (4, n)"""
    got = columns(case, tag, d, what)
    want = np.asarray(want, float).reshape(4, -1)
    case.ensure(all(g.shape == (want.shape[1],) for g in got), tag,
                "{}: {} points, expected {}", what, [g.shape for g in got], want.shape[1])
    for nm, g, w in zip(("wavelength", "angle", "psi", "delta"), got, want):
        case.ensure(np.allclose(g, w, rtol=rtol, atol=atol), tag,
                    "{}: {} is {} not {}", what, nm, short(g), short(w))


# ---------------------------------------------------------------------- EP4
def ep4(case, b, tag="C05"):
    from refellips.dataSE import DataSE, open_EP4file

    rng = case.rng
    rows = b["rows"]
    astep, lstep = rng.choice([5.0, 5.0, 0.01]), rng.choice([31.7, 31.7, 0.1])
    aois = {a: round(40 + astep * a + rng.choice([0, 0.125, 0.001] if astep > 1 else [0]), 4) for a in {r["aoi"] for r in rows}}
    base = rng.uniform(200, 700)
    lams = {l: round(base + lstep * l, 1) for l in {r["lam"] for r in rows}}
    order = list({r["t"] for r in rows})
    tv = {}
    late = rng.choice([0, 0, 0, 86400.0, 1.6e9])
    for t in order:
        while True:
            v = rng.choice([round(rng.uniform(0, 5000), 3), round(rng.uniform(0, 5000), 3), round(rng.uniform(0, 2), 2), rng.randint(0, 900)])
            if late:
                v = late + round(rng.uniform(0, 3), 1)
            if v not in tv.values():
                tv[t] = v
                break
    if rng.random() < 0.1 and order and 0 not in tv.values():
        tv[order[0]] = 0.0
    far = rng.choice([1, 1, 6])
    x0, y0 = round(rng.uniform(-40, 40) * far, 2), round(rng.uniform(-40, 40) * far, 2)
    # a stage distance of 20 units is just within 0.2 mm, 21 just outside: the
    # boundary itself isn't representable
    X = [round(x0 + r["x"] / 100 * 0.999, 5) for r in rows]
    Y = [round(y0 + r["y"] / 100 * 0.999, 5) for r in rows]
    psi = [rnd(case, 0, 90) for _ in rows]
    dl = [rnd(case, 0, 360) for _ in rows]
    for _ in range(rng.choice([0, 0, len(rows)])):
        # equal readings
        i, j = rng.randrange(len(rows)), rng.randrange(len(rows))
        psi[i] = psi[j]
        dl[i] = dl[j] if rng.random() < 0.7 else dl[i]
    # columns, in any order
    cols = ["#Lambda", "AOI", "Delta", "Psi"]
    extra = ["Bandwidth", "Zone", "Amin", "Pmin", "ROIidx", "Theta_pos"]
    cols += rng.sample(extra, rng.randint(0, len(extra)))
    if b["hasT"]:
        cols.append("Time")
    if b["hasP"]:
        cols += ["X_pos", "Y_pos"]
    elif rng.random() < 0.1:
        cols.append(rng.choice(["X_pos", "Y_pos"]))
    if rng.random() < 0.5:
        rng.shuffle(cols)
    lines = ["\t".join(cols), "\t".join("#-" for _ in cols)]
    for i, r in enumerate(rows):
        v = {"#Lambda": lams[r["lam"]], "AOI": aois[r["aoi"]], "Delta": dl[i], "Psi": psi[i],
             "Bandwidth": 2.0, "Zone": rng.randint(1, 5), "Amin": rnd(case, -90, 90),
             "Pmin": rnd(case, -90, 90), "ROIidx": 0, "Theta_pos": 0.0,
             "Time": tv[r["t"]], "X_pos": X[i], "Y_pos": Y[i]}
        s = {k: repr(v[k]) for k in cols}
        if not r["ok"]:
            for k in rng.sample(cols, rng.randint(1, 2)):
                s[k] = rng.choice(["NaN", "nan", ""])
        lines.append("\t".join(s[k] for k in cols))
    path = tmpname(case, "_20200929-083122.ds.dat")
    try:
        write(case, path, lines)
        src, fh = opener(case, path)
        kw = {"reflect_delta": True} if b["reflect"] else {}
        res = case.call(tag, "open_EP4file", open_EP4file, src, **kw)
        if fh:
            fh.close()
    finally:
        os.unlink(path)
    out = b["out"]
    if len(out) == 1:
        case.ensure(isinstance(res, DataSE), tag, "one dataset expected, got {}", short(res))
        res = [res]
    else:
        case.ensure(isinstance(res, (list, tuple)) and len(res) == len(out), tag,
                    "{} datasets expected (times/areas {}), got {}", len(out),
                    [(o["time"], o["area"]) for o in out],
                    len(res) if isinstance(res, (list, tuple)) else type(res))
    psi, dl, X, Y = map(np.array, (psi, dl, X, Y))
    for n, (o, d) in enumerate(zip(out, res)):
        w = []
        cx, cy = [], []
        for c in o["cells"]:
            i = np.array(c["rows"]) - 1
            de = np.mean(dl[i])
            if b["reflect"] and de > 180:
                de = 360 - de
            w.append([lams[c["lam"]], aois[c["aoi"]], np.mean(psi[i]), de])
            cx.append(np.mean(X[i]))
            cy.append(np.mean(Y[i]))
        compare(case, tag, d, np.array(w).T, f"dataset {n} of {len(out)}")
        md = case.call(tag, "metadata", lambda: d.metadata)
        if o["located"]:
            i = np.array(o["area"]) - 1
            for key, c, v in (("X pos", cx, X[i]), ("Y pos", cy, Y[i])):
                got = md.get(key)
                ok = got is not None and (abs(got - np.mean(c)) <= 0.0051
                                          or abs(got - np.mean(v)) <= 0.0051)
                ok = ok and abs(got * 100 - round(got * 100)) < 1e-6
                case.ensure(ok, tag, "dataset {}: {} is {}, the mean position is {}", n, key,
                            got, np.mean(c))
        else:
            case.ensure(md.get("X pos") is None and md.get("Y pos") is None, tag,
                        "dataset {}: unexpected position {}", n, md)
        if o["timed"]:
            case.ensure(md.get("time") == tv[o["time"]], tag, "dataset {}: time is {} not {}", n,
                        md.get("time"), tv[o["time"]])
        else:
            case.ensure(md.get("time") is None, tag, "dataset {}: unexpected time {}", n, md)
        label = f"_x={md['X pos']}mm_y={md['Y pos']}mm" if o["located"] else ""
        label += f"_t={md['time']}s" if o["timed"] else ""
        case.ensure(str(d.name).endswith(label) and ("_t=" in str(d.name)) == o["timed"]
                    and ("_x=" in str(d.name)) == o["located"], tag, "dataset {}: the name {} doesn't say {}", n, d.name, label)
        case.steps += 1


# -------------------------------------------------------------------- M2000
def m2000(case, b, tag="C06"):
    from refellips.dataSE import DataSE, open_M2000file

    rng = case.rng
    meta = {}
    for i in range(b["nmeta"]):
        meta[["EllipsometerType", "CompleteEASE", "AcqTime", "Sample Name"][i]] = rng.choice(
            ["4", "3.65", "30.013", "a b", "x-y(1)"])
    lines = ["", "VASEmethod[" + ", ".join(f"{k}={v}" for k, v in meta.items()) + "]"]
    n = len(b["rows"])
    few = [round(rng.uniform(190, 1700), 3) for _ in range(3)]
    token = {v: [rng.choice([round(rng.uniform(190, 1700), 3), rng.choice(few)]), rng.choice([65.0, 70.0, 75.0]),
                 rnd(case, 0, 90), rnd(case, -90, 360)] for v in sorted({r["v"] for r in b["rows"]})}
    vals = np.array([token[r["v"]] for r in b["rows"]]).reshape(-1, 4)
    kind = b["kind"]
    # ascending times (minutes) whose keys in 0.1 s differ
    ranks = sorted({r["t"] for r in b["rows"]})
    tmin = {}
    cur = rng.choice([0.0, rng.uniform(0, 2)])
    for t in ranks:
        tmin[t] = round(cur, 4)
        cur += rng.choice([0.005, rng.uniform(0.01, 3), 20.0])
    if kind == "static":
        lines.append("nm")
        for v in vals:
            e = [repr(float(x)) for x in v]
            lines.append("\t".join(e + ["0.0140", "0.0318", ""]))
            lines.append("\t".join(["dPolE", e[0], "0.000", repr(rnd(case, -9, 9)), "1.0000"]))
            lines.append("\t".join(["uR", e[0], "0.000", repr(rnd(case, -9, 9)), "1.0000"]))
    elif kind == "dynamic":
        lines += ["Dynamic", "nm"]
        for t, v in zip([r["t"] for r in b["rows"]], vals):
            e = [repr(float(x)) for x in v]
            lines.append("\t".join(e + ["0.0988", "0.2195", "", repr(tmin[t])]))
    else:
        lines.append(rng.choice(["eV", "Angstroms", "nm dynamic", "Mapping", ""]))
        lines.append("370.3\t70.0\t20.0\t100.0\t0.1\t0.1\t")
    path = tmpname(case, ".dat")
    kw = {}
    if b["drop"] != 1 or rng.random() < 0.3:
        kw["dropdatapoints"] = b["drop"]
    if b["take"] != 1 or rng.random() < 0.3:
        kw["take_every"] = b["take"]
    fh = None
    try:
        nl = rng.choice(["\n", "\r\n"])
        with open(path, "w", newline="") as f:
            f.write(nl.join(lines) + (nl if kind == "static" or rng.random() < 0.5 else ""))
        src, fh = opener(case, path)
        if kind == "other":
            case.refused(tag, "an unknown file layout", (ValueError,), open_M2000file, src, **kw)
            case.steps += 1
            return
        res = case.call(tag, "open_M2000file", open_M2000file, src, **kw)
    finally:
        if fh:
            fh.close()
        os.unlink(path)
    if kind == "static":
        case.ensure(isinstance(res, DataSE), tag, "a dataset expected, got {}", type(res))
        items = [(None, res)]
    else:
        case.ensure(isinstance(res, dict), tag, "a dictionary expected, got {}", type(res))
        items = list(res.items())
    case.ensure(len(items) == len(b["out"]), tag, "{} datasets expected, got {}", len(b["out"]),
                [k for k, _ in items])
    for o, (k, d) in zip(b["out"], items):
        if kind == "dynamic":
            sec = tmin[o["t"]] * 60
            case.ensure(abs(k - sec) <= 0.05 + 1e-9 and abs(k * 10 - round(k * 10)) < 1e-6, tag,
                        "measurement at {} s has key {}", sec, k)
        idx = np.array(o["rows"]) - 1
        compare(case, tag, d, vals[idx].T, f"dataset at time {k}")
        md = d.metadata
        for key, v in meta.items():
            case.ensure(md.get(key) == v, tag, "metadata {} is {!r} not {!r}", key, md.get(key), v)
        case.steps += 1


# ---------------------------------------------------------------- FilmSense
def filmsense(case, b, tag="C07"):
    from refellips.dataSE import DataSE, open_FilmSenseFile

    rng = case.rng
    nw, nt = b["nw"], b["nt"]
    wl = [round(rng.uniform(300, 1000), 2) for _ in range(nw)]
    aoi = rng.choice([-1, 1]) * round(rng.uniform(40, 80), 3)
    lines = [{"static": "Film_Sense_Data", "dynamic": "Film_Sense_Dyn_Data",
              "other": rng.choice(["Film_Sense_Map", "Film_Sense_Data2", "", "nm"])}[b["kind"]]]
    ax, ay, ai, q = (round(rng.uniform(-1, 1), 3) for _ in range(4))
    if b["kind"] == "dynamic":
        hdr = [str(nw), str(nt), repr(aoi), str(int(abs(q) * 10))]
    else:
        hdr = [str(nw), str(nt), repr(aoi), repr(ax), repr(ay), repr(ai)]
    lines.append("\t".join(hdr))
    for w in wl:
        lines.append("\t".join([repr(w)] + [repr(rnd(case, 1, 20)) for _ in range(6)]))
    val, seen = {}, {}
    for o in b["out"]:
        for c in o["pts"]:
            lo, hi = {0: (rng.choice([1, 8]), 30), 1: (30, 60), 2: (60, rng.choice([82, 89]))}[c["psi"]]
            psi = rng.uniform(lo, hi)
            # octant: even = on an axis/at its start, odd = inside a quadrant
            de = 45.0 * c["oct"] + (0 if rng.random() < 0.3 else rng.uniform(0.5, 44.5))
            val[(c["t"], c["w"])] = (psi, de)
            key = (c["oct"], c["psi"])
            if rng.random() < 0.4 and key in seen:
                # the same reading again
                val[(c["t"], c["w"])] = seen[key]
            seen[key] = val[(c["t"], c["w"])]

    pol = rng.choice([1, 1, rng.uniform(0.3, 1)])

    def ncs(p, d):
        p, d = np.radians(p), np.radians(d)
        # light can be depolarised
        r = [np.cos(2 * p), pol * np.sin(2 * p) * np.cos(d), pol * np.sin(2 * p) * np.sin(d)]
        return [repr(float(x)) for x in r] + [repr(1 + rnd(case, -.001, .001)), repr(rnd(case, 5, 20))]

    times = []
    if b["kind"] == "static":
        for j in range(1, nw + 1):
            lines.append("\t".join(ncs(*val[(1, j)])))
        lines += ["3", "Fit_Diff\t0.0046", "Thick(nm).1\t1.5973", "Amb_n(633nm)\t0.99793",
                  "Model: (not saved), Date: 2024-07-19 16:35, Ver: 3.40, Temp: 29.8"]
    elif b["kind"] == "dynamic":
        lines.append("Time\t" + "\t".join(f"L{j}_{x}" for j in range(nw) for x in "NCSPI")
                     + "\tAlignX\tAlignY\tAveInt\tTemp")
        t = rng.choice([0.0, rng.uniform(0, 9)])
        stamps = []
        for i in range(nt):
            stamps.append(round(t, 3))
            t += rng.choice([0.002, 0.5, rng.uniform(0.01, 20), 1000.0])
        if rng.random() < 0.3:
            # the clock may be reset: file order is what counts
            rng.shuffle(stamps)
        for i in range(1, nt + 1):
            times.append(stamps[i - 1])
            row = [repr(times[-1])]
            for j in range(1, nw + 1):
                row += ncs(*val[(i, j)])
            row += [repr(rnd(case, -1, 1)) for _ in range(4)]
            lines.append("\t".join(row))
    path = tmpname(case, ".txt")
    fh = None
    try:
        with open(path, "w", newline="") as f:
            f.write("\n".join(lines) + "\n")
        src, fh = opener(case, path)
        if b["kind"] == "other":
            case.refused(tag, "an unknown file type", (Exception,), open_FilmSenseFile, src)
            case.steps += 1
            return
        res = case.call(tag, "open_FilmSenseFile", open_FilmSenseFile, src)
    finally:
        if fh:
            fh.close()
        os.unlink(path)
    if b["kind"] == "static":
        case.ensure(isinstance(res, DataSE), tag, "a dataset expected, got {}", type(res))
        items = [(None, res)]
    else:
        case.ensure(isinstance(res, dict), tag, "a dictionary expected, got {}", type(res))
        items = list(res.items())
        case.ensure([float(k) for k, _ in items] == times, tag, "times are {} not {}",
                    [k for k, _ in items], times)
    for o, (k, d) in zip(b["out"], items):
        got = columns(case, tag, d, f"dataset {k}")
        want = np.array([[wl[c["w"] - 1], aoi, *val[(c["t"], c["w"])]] for c in o["pts"]]).T
        case.ensure(all(g.shape == (nw,) for g in got), tag, "{}: shapes {}, expected {} points",
                    k, [g.shape for g in got], nw)
        case.ensure(np.allclose(got[0], want[0], rtol=1e-12), tag, "wavelengths {} not {}", got[0], want[0])
        case.ensure(np.allclose(got[1], want[1], rtol=1e-12), tag, "angle {} not {}", got[1], want[1])
        # (single precision)
        s2 = np.sin(np.radians(2 * want[2]))
        case.ensure(np.all(np.abs(got[2] - want[2]) < 5e-5 + np.degrees(1e-7 / s2)), tag, "psi {} not {}", got[2], want[2])
        dd = np.abs(got[3] - want[3])
        case.ensure(np.all(np.minimum(dd, 360 - dd) < 1e-4 + np.degrees(3e-7 / s2 / pol)) and np.all((got[3] >= 0) & (got[3] < 360)),
                    tag, "delta {} not {}", got[3], want[3])
        md = d.metadata
        case.ensure(md.get("numwvls") == nw and md.get("numdatasets") == nt
                    and md.get("nomAOI") == aoi, tag, "metadata {}", md)
        if b["kind"] == "static":
            case.ensure(md.get("AlignX") == ax and md.get("AlignY") == ay and md.get("AvInten") == ai,
                        tag, "metadata {}", md)
        case.steps += 1


# ------------------------------------------------------------------- Horiba
def horiba(case, b, tag="C08"):
    from refellips.dataSE import DataSE, open_HORIBAfile

    rng = case.rng
    wv = {}
    lo = rng.choice([rng.uniform(200, 400), rng.uniform(200, 400), rng.uniform(800, 2300)])
    for w in sorted({w for w in b["data"]} | {c for c in b["cut"] if c}):
        lo = round(lo + rng.uniform(0.5, 100), 3)
        wv[w] = lo
    psi = [rnd(case, 0, 90) for _ in b["data"]]
    dl = [rnd(case, 0, 360) for _ in b["data"]]
    for i in range(1, rng.choice([0, 0, len(psi)])):
        # equal readings
        j = rng.randrange(i)
        psi[i], dl[i] = rng.choice([(psi[j], dl[j]), (psi[i], dl[j]), (psi[j], dl[i]), (psi[i], dl[i])])
    ang = rng.choice(["70.00", "65.25", "55.10", "60.00", "69.95", "45.01"])
    cols = ["nm", "Psi", "Delta"] + rng.sample(["Is", "Ic", "eV"], rng.randint(0, 3))
    if rng.random() < 0.5:
        rng.shuffle(cols)
    names = {"ANGLE": "INCIDENCE ANGLE", "DATA": "DATA", "A": "SAMPLE", "B": "EXPERIMENTAL FILE TYPE",
             "C": "COMMENTS", "D": "ACQUISITION DATE"}
    out, texts, nrow = [], {}, 0
    for l in b["lines"]:
        if l["k"] == "label":
            out.append(f"# {names[l['v']]}:")
            texts[l["v"]] = []
        elif l["k"] == "blank":
            out.append("")
        elif l["k"] == "title":
            out.append(" ".join(cols))
            texts["DATA"].append(out[-1])
        elif l["k"] == "row":
            v = {"nm": wv[b["data"][nrow]], "Psi": psi[nrow], "Delta": dl[nrow],
                 "Is": rnd(case, -1, 1), "Ic": rnd(case, -1, 1), "eV": rnd(case, 1, 6)}
            out.append(" ".join(repr(v[c]) for c in cols))
            texts["DATA"].append(out[-1])
            nrow += 1
        else:
            t = f"{ang} deg" if l["v"] == "ANGLE" else rng.choice(
                ["some text", "a: b", "1 2 3", "x#y", "12.5", "http://horiba.com/a", "50%, (ok); 'q' \"r\"", "a = b", f"line {len(out)}"])
            out.append(t)
            texts[l["v"]].append(t)
    path = tmpname(case, ".spe")
    kw = {}
    if b["reflect"]:
        kw["reflect_delta"] = True
    c = b["cut"]
    if c[0] or c[1]:
        kw["lambda_cutoffs"] = case.own([wv[c[0]] if c[0] else -np.inf, wv[c[1]] if c[1] else np.inf],
                                        "cut-offs")
    fh = None
    try:
        write(case, path, out)
        src, fh = opener(case, path)
        d = case.call(tag, "open_HORIBAfile", open_HORIBAfile, src, **kw)
    finally:
        if fh:
            fh.close()
        os.unlink(path)
    case.ensure(isinstance(d, DataSE), tag, "a dataset expected, got {}", type(d))
    i = np.array(b["kept"], int) - 1
    de = np.array(dl)[i] if len(i) else np.zeros(0)
    if b["reflect"]:
        de = np.where(de > 180, 360 - de, de)
    want = np.array([[wv[b["data"][k]] for k in i], [float(ang)] * len(i),
                     [psi[k] for k in i], de])
    compare(case, tag, d, want, "Horiba file")
    md = d.metadata
    for k, t in texts.items():
        got = md.get(names[k], "missing")
        exp = None if not t else (t[0] if len(t) == 1 else t)
        case.ensure(got == exp, tag, "metadata {} is {} not {}", names[k], short(got), short(exp))
    case.steps += 1
    case.verify_owned("open_HORIBAfile")


def replay(case, beh, opts):
    globals()[opts["fmt"]](case, beh)
