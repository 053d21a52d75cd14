"""Replays spec/Profile.tla: depth profiles, micro-slicing, contraction."""
import numpy as np
from refnx.reflect import interface as I

from .core import short
from .drv_stack import safe_mix

T = "C12"
SHAPES = dict(erf=lambda: I.Erf(), linear=lambda: I.Linear(), tanh=lambda: I.Tanh(),
              sinusoidal=lambda: I.Sinusoidal(), exponential=lambda: I.Exponential(), step=lambda: I.Step())


def replay(case, beh, opts):
    from refellips import structureSE as S
    from refellips.dispersion import RI, Cauchy

    rng = case.rng
    lay, rev, solv, shape = beh["lay"], beh["rev"], beh["solv"], beh["shape"]
    micro = shape not in ("default", "mixed")
    unit = rng.choice([100.0, 120.0, 87.5]) if shape != "default" else rng.choice([100.0, 50.0, 7.0])
    N = len(lay)
    wav = rng.choice([None, 500.0, 700])
    mats, nval = {}, {}
    for m in range(1, max([l["m"] for l in lay] + [solv]) + 1):
        n = complex(rng.uniform(1, 3), rng.choice([0, rng.uniform(0, 2)]))
        if rng.random() < 0.3:
            mats[m] = Cauchy(n.real, 0.01, wavelength=600)
            nval[m] = complex(n.real + 0.01 / ((wav or 600) / 1000) ** 2)
        else:
            mats[m] = RI((n.real, n.imag))
            nval[m] = n
    rough = rng.uniform(0.5, unit * 0.04)
    vf = rng.choice([0.3, 0.75, 1.0])
    ema = rng.choice(["linear", "maxwell-garnett"])
    comps = []
    for i, l in enumerate(lay):
        c = mats[l["m"]](l["th"] * unit if 0 < i < N - 1 else rng.choice([0, l["th"] * unit if not shape in SHAPES else 0]),
                         l["ro"] * rough, l["vf"] * vf)
        if shape in SHAPES:
            if rng.random() < 0.8 or i == 1:
                c.interfaces = SHAPES[shape]()
        elif shape == "anyshape" and (i == 1 or rng.random() < 0.5):
            c.interfaces = SHAPES[rng.choice(sorted(SHAPES))]()
        comps.append(c)
    st = S.StructureSE(comps, solvent=mats[solv] if solv else None, reverse_structure=rev, ema=ema, wavelength=wav)
    sliced = any(c.interfaces is not None for c in comps)
    # rows of the layer table
    idx = list(range(N))[::-1] if rev else list(range(N))
    last = lay[idx[-1]]["m"]
    rows = []
    for k, i in enumerate(idx):
        n = nval[lay[i]["m"]]
        if 0 < k < N - 1 and lay[i]["vf"]:
            n = safe_mix(ema, n, nval[solv if solv else last], vf, 1 / 3)
        elif 0 < k < N - 1 and ema != "linear" and safe_mix(ema, n, nval[solv if solv else last], 1e-12, 1 / 3) is None:
            n = None
        if n is None:
            return
        rows.append(n)
    qd = beh["q"][0]
    case.steps += 1
    cum = [x * unit for x in qd["all"]]         # interface k is at cum[k], k = 1..N-1
    sharp = all(l["ro"] == 0 for l in lay)

    if sliced:
        sl = case.call(T, "micro-sliced table", st.slabs)
        micro_checks(case, sl, rows, cum, N, rough, lay, idx)
        if beh["contract"] and rng.random() < 0.3:
            st.contract = beh["contract"] * rng.choice([0.3, 1.0, 5.0])
            contracted(case, case.call(T, "contracted micro-sliced table", st.slabs), sl, st.contract)
        return

    sl = case.call(T, "layer table", st.slabs)
    case.ensure(sl.shape == (N, 5), T, "layer table has shape {}", sl.shape)
    for k in range(N):
        got = complex(sl[k, 1], sl[k, 2])
        case.ensure(abs(got - rows[k]) < 1e-7 * (1 + abs(got)), T + " C10", "row {} is {} not {}", k, got, rows[k])

    # positions well inside the row: middle of the film for rough interfaces
    thin = [k for k in range(1, N - 1) if qd["all"][k + 1] == qd["all"][k]] if N > 2 else []
    zq = qd["at"] / 2 * unit
    z = case.own(np.array([zq, cum[1] - 0.4 * unit, cum[-1] + 0.4 * unit]), "depths")
    a = qd["align"]
    arg = rng.choice([int(a), np.int64(a)])
    zz, v = case.call(T, f"ri_profile(z, align={a})", st.ri_profile, z, align=arg)
    case.ensure(np.shape(zz) == (3,) and np.shape(v) == (3,), T, "ri_profile of 3 depths has shapes {} {}", np.shape(zz), np.shape(v))
    shift = qd["shift"] * unit
    case.ensure(np.allclose(zz, z - shift, rtol=0, atol=1e-8 * (1 + abs(shift))), T,
                "aligning to interface {} moves depths {} to {}, expected {}", a, z, zz, z - shift)
    want = [rows[qd["row"] - 1].real, rows[0].real, rows[-1].real]
    # distance to the nearest interface is at least half a unit
    case.ensure(np.allclose(v, want, rtol=0, atol=1e-7), T,
                "profile at {} is {}, expected {} (interfaces {}, rows {})", z, v, want, cum[1:], short(rows, 300))
    case.verify_owned("ri_profile")
    # default depths
    kw = {}
    if rng.random() < 0.3:
        kw["max_delta_z"] = rng.uniform(0.3, 5) * unit / 50
    zz, v = case.call(T, "ri_profile()", st.ri_profile, align=arg, **kw)
    zz, v = np.asarray(zz), np.asarray(v)
    case.ensure(zz.shape == v.shape and zz.ndim == 1 and np.all(np.diff(zz) > 0), T, "ri_profile() depths are not increasing")
    if kw:
        case.ensure(np.max(np.diff(zz)) <= kw["max_delta_z"] * (1 + 1e-9), T, "ri_profile spacing {} above {}",
                    np.max(np.diff(zz)), kw["max_delta_z"])
    case.ensure(zz[0] <= -shift and zz[-1] >= cum[-1] - shift, T, "ri_profile() covers {} to {}, the film is {} to {}",
                zz[0], zz[-1], -shift, cum[-1] - shift)
    # where is each depth?
    for k in range(N):
        lo = -np.inf if k == 0 else cum[k]
        hi = np.inf if k == N - 1 else cum[k + 1]
        g = 0 if sharp else 8 * rough
        sel = (zz + shift > lo + g + 1e-6) & (zz + shift < hi - g - 1e-6)
        if not sharp and thin:
            continue
        if sel.any():
            case.ensure(np.allclose(v[sel], rows[k].real, rtol=0, atol=1e-6), T,
                        "profile in row {} (between {} and {}) is {}..{}, expected {}", k, lo, hi,
                        v[sel].min(), v[sel].max(), rows[k].real)
    case.ensure((thin and not sharp) or v.min() >= min(r.real for r in rows) - 1e-7 and v.max() <= max(r.real for r in rows) + 1e-7, T,
                "profile leaves the range of its layers")
    # alignment out of range
    for bad in (N - 1, N + 3, -N - 1):
        if bad != 0:
            case.refused(T, f"align={bad} for {N} rows", (RuntimeError, ValueError, IndexError), st.ri_profile, align=bad)
    t2 = case.call(T, "layer table", st.slabs)
    case.ensure(np.array_equal(t2, sl), "C12 C19", "computing a profile changed the layer table")
    # contraction
    # (refnx cannot contract layers of zero thickness: 0/0)
    if beh["contract"] and all(sl[k, 0] > 0 for k in range(1, N - 1)):
        st.contract = beh["contract"] * rng.choice([0.3, 1.0, 5.0])
        ct = case.call(T, "contracted table", st.slabs)
        contracted(case, ct, sl, st.contract)
        if N > 2 and rng.random() < 0.3:
            # a multilayer
            many = S.StructureSE([comps[0]] + comps[1:-1] * (rng.randint(30, 60) // (N - 2) + 1) + [comps[-1]],
                                 solvent=mats[solv] if solv else None, reverse_structure=rev, ema=ema, wavelength=wav)
            sl = case.call(T, "table of a multilayer", many.slabs)
            many.contract = st.contract
            contracted(case, case.call(T, "contracted multilayer", many.slabs), sl, st.contract)


def contracted(case, ct, sl, c):
    case.ensure(ct.ndim == 2 and ct.shape[1] == 5 and len(ct) <= len(sl), T, "contract={} gives {} rows from {}", c, np.shape(ct), len(sl))
    # layers may be merged into the fronting medium, which then carries their thickness
    case.ensure(abs(np.sum(ct[:, 0]) - np.sum(sl[:, 0])) <= 1e-6 * (1 + np.sum(sl[:, 0])), T,
                "contract={}: total thickness {} becomes {}", c, np.sum(sl[:, 0]), np.sum(ct[:, 0]))
    case.ensure(np.allclose(ct[0, 1:3], sl[0, 1:3], rtol=0, atol=1e-9) and np.allclose(ct[-1, 1:3], sl[-1, 1:3], rtol=0, atol=1e-9), T,
                "contract={}: end media {} {} become {} {}", c, sl[0, 1:3], sl[-1, 1:3], ct[0, 1:3], ct[-1, 1:3])
    for j in (1, 2):
        case.ensure(ct[:, j].min() >= sl[:, j].min() - 1e-9 and ct[:, j].max() <= sl[:, j].max() + 1e-9, T,
                    "contract={}: values leave the range of the layers", c)


def micro_checks(case, sl, rows, cum, N, rough, lay, idx):
    case.ensure(sl.ndim == 2 and sl.shape[1] == 5 and len(sl) > 5, T, "micro-sliced table has shape {}", np.shape(sl))
    dz = sl[:, 0]
    case.ensure(np.allclose(dz, dz[0]) and 0.05 < dz[0] < 2, T, "micro-slices have thicknesses {}..{}", dz.min(), dz.max())
    dz = dz[0]
    n = sl[:, 1] + 1j * sl[:, 2]
    case.ensure(abs(n[0] - rows[0]) < 1e-6 and abs(n[-1] - rows[-1]) < 1e-6, T,
                "micro-sliced table runs from {} to {}, the end media are {} and {}", n[0], n[-1], rows[0], rows[-1])
    case.ensure(len(sl) * dz >= cum[-1], T, "micro-sliced table is {} thick, the film {}", len(sl) * dz, cum[-1])
    # merge neighbouring rows of the same index: no visible interface
    vis = [k for k in range(1, N) if abs(rows[k] - rows[k - 1]) > 1e-3]
    if any(b - a < 1e-9 for a, b in zip(cum[1:], cum[2:])):
        # a layer of zero thickness: only the ends are known
        return
    if not vis:
        case.ensure(np.allclose(n, rows[0], rtol=0, atol=2e-3 * N), T, "micro-sliced table of one medium varies")
        return
    # find the first visible transition: the first slice closer to the new value
    k0 = vis[0]
    d = rows[k0] - rows[k0 - 1]
    frac = ((n - rows[k0 - 1]) / d).real
    first = int(np.argmax(frac > 0.5))
    org = first * dz - cum[k0]          # depth of slice 0 is -org (within one slice)
    pos = np.arange(len(n)) * dz - org
    guard = 9 * rough + 2
    for k in range(N):
        lo = -np.inf if k == 0 else cum[k] + guard
        hi = np.inf if k == N - 1 else cum[k + 1] - guard
        sel = (pos > lo) & (pos < hi)
        if sel.any():
            bad = np.abs(n[sel] - rows[k]) > 1e-3 * (1 + abs(rows[k]))
            case.ensure(not bad.any(), T, "micro-sliced value inside layer {} ({}..{} A) is {}, expected {}", k, lo, hi,
                        n[sel][bad][:1], rows[k])
    mids = [-np.inf] + [(cum[k] + cum[k + 1]) / 2 for k in range(1, N - 1)] + [np.inf]
    for k in range(1, N):
        sel = (pos > mids[k - 1]) & (pos < mids[k])
        for part in (n.real, n.imag):
            dif = np.diff(part[sel])
            case.ensure(np.all(dif >= -1e-7) or np.all(dif <= 1e-7), T,
                        "micro-sliced values are not monotonic across interface {}", k)
    # solvated rows are done: nothing is left to mix
    case.ensure(np.all(sl[:, 4] == 0), T, "micro-sliced table still has solvent fractions")
