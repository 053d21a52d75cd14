"""Which specifications and drivers decide which property."""
import random

from . import tlc
from .core import MachineryError

REG = {}


def check(*props):
    def deco(f):
        for p in props:
            REG.setdefault(p, []).append(f)
        return f
    return deco


def run(c):
    if c.prop not in REG:
        raise MachineryError(f"no check for {c.prop}")
    for f in REG[c.prop]:
        f(c)
        if c.violations:
            return


def account(c, r, module, kind, **info):
    c.states += r.states
    c.transitions += r.generated
    c.modules.append(dict(module=module, kind=kind, distinct_states=r.states,
                          transitions=r.generated, behaviours=len(r.behaviours), **info))
    return r


def thin(behs, n, seed):
    """A seeded sample of at most n behaviours (order kept)."""
    if len(behs) <= n:
        return behs
    idx = sorted(random.Random(seed).sample(range(len(behs)), n))
    return [behs[i] for i in idx]


def thorough(c):
    return c.tier == "thorough"


# ------------------------------------------------------------------ Dataset
DS_OPS = {"New", "NewFrom", "Open", "Clone", "SetMask", "Assign", "Save", "Load",
          "Refresh", "Rewrite"}
DS_INV = ["Aligned", "Convention", "Honest", "Subseq", "RoundTrip"]
DS_PROP = ["MaskHides", "SaveReads", "LoadReads", "OneAtATime"]


@check("C01", "C02", "C03", "C04", "C20")
def dataset(c):
    deep = thorough(c)
    ops = {
        "C01": DS_OPS - {"Clone"},
        "C02": DS_OPS - {"Clone"},
        "C03": DS_OPS,
        "C04": {"New", "Assign", "SetMask", "NewFrom", "Open", "Rewrite", "Refresh"},
        "C20": {"New", "NewFrom", "Open", "Clone", "SetMask", "Assign", "Save", "Load", "Refresh", "Rewrite"},
    }[c.prop]
    # every transition of a small configuration
    r = account(c, tlc.run("Dataset", tlc.cfg_text(
        dict(Handles={"a"}, Files={"f"}, NP=2, MaxRows=2, MaxOps=3 if deep else 2, Sim=False, Ops=ops),
        invariants=DS_INV, properties=DS_PROP, view="AbsView", action_constraint="EmitStep"),
        seed=c.seed), "Dataset", "exhaustive, one behaviour per transition",
        constants="1 dataset, 1 file, <=2 rows, %d operations" % (3 if deep else 2))
    c.replay("dataset", thin(r.behaviours, 60000 if deep else 4000, c.seed), label="exhaustive")
    # two datasets and two files, exhaustively in the specification
    r = account(c, tlc.run("Dataset", tlc.cfg_text(
        dict(Handles={"a", "b"}, Files={"f"}, NP=2, MaxRows=1, MaxOps=5 if deep else 4, Sim=False, Ops=ops),
        invariants=DS_INV, properties=DS_PROP, view="AbsView"), workers=4, seed=c.seed),
        "Dataset", "exhaustive, invariants")
    if c.prop == "C02":
        # one file that keeps changing
        r = account(c, tlc.run("Dataset", tlc.cfg_text(
            dict(Handles={"a"}, Files={"f"}, NP=6, MaxRows=2, MaxOps=14, Sim=True,
                 Ops={"Open", "Refresh", "Rewrite"}),
            invariants=DS_INV + ["EmitDone"]), mode="sim", num=4000 if deep else 600, depth=16,
            seed=c.seed * 100 + 50), "Dataset", "random behaviours of 14 operations on one file")
        c.replay("dataset", thin(r.behaviours, 8000 if deep else 1200, c.seed), label="simulation")
    # long random histories
    for i in range(4 if deep else 1):
        r = account(c, tlc.run("Dataset", tlc.cfg_text(
            dict(Handles={"a", "b"}, Files={"f", "g"}, NP=6, MaxRows=6, MaxOps=14, Sim=True, Ops=ops),
            invariants=DS_INV + ["EmitDone"]), mode="sim", num=4000 if deep else 1200, depth=16,
            seed=c.seed * 100 + i), "Dataset", "random behaviours of 14 operations")
        c.replay("dataset", thin(r.behaviours, 8000 if deep else 2400, c.seed),
                 repeats=3 if deep else 1, label="simulation")


# ------------------------------------------------------------------ readers
def reader(c, module, fmt, inv, small, large, nsmall, nlarge, num, depth, repeats=1):
    deep = thorough(c)
    r = account(c, tlc.run(module, tlc.cfg_text(small(deep), invariants=inv + ["Emit"]),
                           seed=c.seed, workers=1), module, "exhaustive")
    c.replay("loaders", thin(r.behaviours, nsmall * (10 if deep else 1), c.seed),
             opts=dict(fmt=fmt), label="exhaustive")
    for i in range(5 if deep else 1):
        r = account(c, tlc.run(module, tlc.cfg_text(large(deep), invariants=inv + ["Emit"]), mode="sim",
                    num=num * (4 if deep else 1), depth=depth, seed=c.seed * 100 + i), module, "random files")
        c.replay("loaders", thin(r.behaviours, nlarge * (4 if deep else 1), c.seed),
                 repeats=repeats * (2 if deep else 1), opts=dict(fmt=fmt), label="simulation")


@check("C05")
def ep4(c):
    inv = ["Partition", "Sorted", "Homogeneous", "Contiguous", "Separated"]
    reader(c, "EP4", "ep4", inv,
           lambda d: dict(Ts={1, 2}, Xs={0, 19, 21} if d else {0, 21}, Ys={0, 21} if d else {0},
                          Aois={1, 2}, Lams={1}, MaxLen=3, Sim=False, MissOneIn=6),
           lambda d: dict(Ts={1, 2, 3}, Xs={0, 40, 41, 42, 60, 62, 81, 101, 103}, Ys={0, 30, 31, 49, 51},
                          Aois={1, 2, 3}, Lams={1, 2}, MaxLen=14, Sim=True, MissOneIn=6),
           1500, 1500, 2500, 16)
    # few distinct positions: long areas, revisited locations
    deep = thorough(c)
    r = account(c, tlc.run("EP4", tlc.cfg_text(
        dict(Ts={1, 2}, Xs={0, 1, 21}, Ys={0, 19}, Aois={1, 2}, Lams={1, 2}, MaxLen=20, Sim=True, MissOneIn=10),
        invariants=inv + ["Emit"]), mode="sim", num=8000 if deep else 1500, depth=22, seed=c.seed * 100 + 50),
        "EP4", "random files")
    c.replay("loaders", thin(r.behaviours, 5000 if deep else 800, c.seed), opts=dict(fmt="ep4"))
    # many times, angles, wavelengths and places
    r = account(c, tlc.run("EP4", tlc.cfg_text(
        dict(Ts=set(range(1, 14)), Xs={0, 20, 21, 1000, 1019, 5000}, Ys={0, 2500}, Aois=set(range(1, 10)),
             Lams=set(range(1, 13)), MaxLen=90, Sim=True, MissOneIn=12),
        invariants=inv + ["Emit"]), mode="sim", num=3000 if deep else 350, depth=92, seed=c.seed * 100 + 60),
        "EP4", "random long files")
    c.replay("loaders", thin(r.behaviours, 3000 if deep else 350, c.seed), opts=dict(fmt="ep4"))


    # many readings of one place
    r = account(c, tlc.run("EP4", tlc.cfg_text(
        dict(Ts={1}, Xs={0, 7}, Ys={0, 19}, Aois=set(range(1, 7)), Lams=set(range(1, 9)), MaxLen=120, Sim=True, MissOneIn=20),
        invariants=inv + ["Emit"]), mode="sim", num=1500 if deep else 120, depth=122, seed=c.seed * 100 + 70),
        "EP4", "random long files, one place")
    c.replay("loaders", thin(r.behaviours, 1500 if deep else 120, c.seed), opts=dict(fmt="ep4"))


@check("C06")
def m2000(c):
    reader(c, "M2000", "m2000", ["Ordered", "OwnRows", "FileOrder", "AllWithoutThinning", "FirstKept", "Counts"],
           lambda d: dict(Times={1, 2, 3}, Readings={1, 2}, MaxLen=4 if d else 3, MaxDrop=3, MaxTake=3, NMeta=2, Sim=False),
           lambda d: dict(Times={1, 2, 3, 4, 5, 6}, Readings=set(range(1, 9)), MaxLen=24, MaxDrop=5, MaxTake=4, NMeta=4, Sim=True),
           1500, 2500, 3000, 26)
    deep = thorough(c)
    inv = ["Ordered", "OwnRows", "FileOrder", "AllWithoutThinning", "FirstKept", "Counts", "Emit"]
    r = account(c, tlc.run("M2000", tlc.cfg_text(
        dict(Times=set(range(1, 26)), Readings=set(range(1, 40)), MaxLen=120, MaxDrop=12, MaxTake=11, NMeta=4, Sim=True),
        invariants=inv), mode="sim", num=6000 if deep else 500, depth=122, seed=c.seed * 100 + 60),
        "M2000", "random long files")
    c.replay("loaders", thin(r.behaviours, 6000 if deep else 500, c.seed), opts=dict(fmt="m2000"))


@check("C07")
def filmsense(c):
    reader(c, "FilmSense", "filmsense", ["OneCellEach", "InOrder"],
           lambda d: dict(MaxW=2, MaxT=2, Octants=set(range(8)) if d else {0, 2, 3, 5}, PsiClasses={0, 2}, Sim=False),
           lambda d: dict(MaxW=8, MaxT=6, Octants=set(range(8)), PsiClasses={0, 1, 2}, Sim=True),
           600, 1000, 1500, 30)
    deep = thorough(c)
    r = account(c, tlc.run("FilmSense", tlc.cfg_text(
        dict(MaxW=24, MaxT=40, Octants=set(range(8)), PsiClasses={0, 1, 2}, Sim=True),
        invariants=["OneCellEach", "InOrder", "Emit"]), mode="sim", num=3000 if deep else 300, depth=70,
        seed=c.seed * 100 + 60), "FilmSense", "random long files")
    c.replay("loaders", thin(r.behaviours, 3000 if deep else 300, c.seed), opts=dict(fmt="filmsense"))


@check("C08")
def horiba(c):
    reader(c, "Horiba", "horiba", ["RowsInSection", "Exact"],
           lambda d: dict(Labels={"A"}, MaxLines=2, MaxRows=2, Wavs={1, 2, 3} if d else {1, 2}, Sim=False),
           lambda d: dict(Labels={"A", "B", "C", "D"}, MaxLines=3, MaxRows=8, Wavs=set(range(1, 8)), Sim=True),
           1200, 1200, 2500, 40)
    deep = thorough(c)
    r = account(c, tlc.run("Horiba", tlc.cfg_text(
        dict(Labels={"A", "B", "C", "D"}, MaxLines=6, MaxRows=60, Wavs=set(range(1, 21)), Sim=True),
        invariants=["RowsInSection", "Exact", "Emit"]), mode="sim", num=3000 if deep else 400, depth=110,
        seed=c.seed * 100 + 60), "Horiba", "random long files")
    c.replay("loaders", thin(r.behaviours, 3000 if deep else 400, c.seed), opts=dict(fmt="horiba"))


@check("C04")
def readers_inputs(c):
    """the options given to a reader belong to the caller"""
    r = account(c, tlc.run("Horiba", tlc.cfg_text(
        dict(Labels={"A", "B"}, MaxLines=2, MaxRows=8, Wavs=set(range(1, 8)), Sim=True),
        invariants=["RowsInSection", "Exact", "Emit"]), mode="sim", num=2000 if thorough(c) else 400, depth=60,
        seed=c.seed * 100 + 60), "Horiba", "random files")
    c.replay("loaders", r.behaviours, opts=dict(fmt="horiba"), label="simulation")


# ---------------------------------------------------------------- materials
RI_INV = ["AtNodes", "Between", "Clamped", "Local"]
FORMS = {"arrays", "lists", "matrix", "file2", "file3", "const"}


@check("C21", "C04")
def tables(c):
    deep = thorough(c)
    r = account(c, tlc.run("RITable", tlc.cfg_text(
        dict(MaxNodes=3 if deep else 2, Lam=set(range(1, 5)), Vals={0, 3}, MaxQueries=1, Sim=False, Forms=FORMS),
        invariants=RI_INV + ["Emit"]), seed=c.seed), "RITable", "exhaustive")
    c.replay("dispersion", thin(r.behaviours, 30000 if deep else 2500, c.seed), opts=dict(what="table"), label="table")
    r = account(c, tlc.run("RITable", tlc.cfg_text(
        dict(MaxNodes=7, Lam=set(range(1, 25)), Vals=set(range(0, 9)), MaxQueries=5, Sim=True, Forms=FORMS),
        invariants=RI_INV + ["Emit"]), mode="sim", num=20000 if deep else 2500, depth=14, seed=c.seed),
        "RITable", "random tables")
    c.replay("dispersion", thin(r.behaviours, 20000 if deep else 2500, c.seed), opts=dict(what="table"),
             repeats=2 if deep else 1, label="table")
    if c.prop == "C04":
        return
    r = account(c, tlc.run("Shipped", tlc.cfg_text(
        dict(NMat=11, Rows=set(range(0, 101, 1 if deep else 4)), RDen=100, FDen=8 if deep else 4),
        invariants=["Convex", "Emit"]), seed=c.seed), "Shipped", "exhaustive")
    c.replay("dispersion", r.behaviours, opts=dict(what="shipped"), repeats=6, label="shipped")


@check("C22", "C23", "C04", "C20", "C17")
def models(c):
    deep = thorough(c)
    kinds = {"cauchy", "sellmeier", "lorentz", "gauss", "tauc"}
    copies = c.prop in ("C20", "C23")
    if copies:
        kinds |= {"const", "table"}
    if c.prop not in ("C04", "C17"):
        r = account(c, tlc.run("Dispersion", tlc.cfg_text(
            dict(Kinds=kinds, MaxOsc=3 if deep else 2, MaxTok=1, MaxOps=4 if deep else 3, Sim=False, Copies=copies),
            invariants=["Distinct_"], properties=["RebuildSame", "OnlyOne", "Independent"], view="AbsView",
            action_constraint="EmitStep"), seed=c.seed), "Dispersion", "exhaustive, one behaviour per transition")
        c.replay("dispersion", thin(r.behaviours, 20000 if deep else 2500, c.seed), opts=dict(what="models"),
                 label="models")
    r = account(c, tlc.run("Dispersion", tlc.cfg_text(
        dict(Kinds=kinds, MaxOsc=4, MaxTok=3, MaxOps=10, Sim=True, Copies=copies),
        invariants=["Distinct_", "EmitDone"]), mode="sim", num=8000 if deep else 1000, depth=12, seed=c.seed),
        "Dispersion", "random histories")
    c.replay("dispersion", thin(r.behaviours, 8000 if deep else (300 if c.prop in ("C04", "C17") else 1000), c.seed),
             opts=dict(what="models"), repeats=2 if deep else 1, label="models")


@check("C11", "C04")
def ema(c):
    deep = thorough(c)
    if c.prop == "C04":
        r = account(c, tlc.run("Media", tlc.cfg_text({}, invariants=["KnownOk", "Emit"]), seed=c.seed),
                    "Media", "exhaustive")
        c.replay("ema", r.behaviours, repeats=4 if deep else 1, opts=dict(what="media"), label="media")
        return
    inv = ["F0", "F1", "Self", "Passive", "Defined", "Parallel", "Series", "Symmetric", "Emit"]
    r = account(c, tlc.run("EMA", tlc.cfg_text(
        dict(Re={1, 2, 3, 5} if deep else {1, 2, 3}, Im={0, 1, 2, 4} if deep else {0, 1, 2},
             FDen=6 if deep else 4, LDen=4 if deep else 3), invariants=inv), seed=c.seed),
        "EMA", "exhaustive, exact Gaussian rationals")
    c.replay("ema", thin(r.behaviours, 20000 if deep else 4000, c.seed), label="exact")
    r = account(c, tlc.run("Media", tlc.cfg_text({}, invariants=["KnownOk", "Emit"]), seed=c.seed),
                "Media", "exhaustive")
    c.replay("ema", r.behaviours, repeats=20 if deep else 3, opts=dict(what="media"), label="media")


# ------------------------------------------------------------------- stacks
ST_INV = ["TypeOK", "RowsOk"]
ST_PROP = ["OneStructure", "OnlyCells", "ReadOnly", "Fresh"]
ST_OPS = {
    "C09": {"mk", "compose", "refuse", "values", "settings"},
    "C10": {"mk", "compose", "values", "settings", "swap"},
    "C17": {"mk", "compose", "values", "settings", "copy"},
    "C20": {"mk", "compose", "values", "settings", "copy", "eval"},
    "C23": {"mk", "compose", "values", "settings", "copy", "eval", "swap"},
    "C13": {"mk", "compose", "values", "settings", "eval"},
}


@check("C09", "C10", "C17", "C20", "C23", "C13")
def stack(c):
    deep = thorough(c)
    ops = ST_OPS[c.prop]
    main = c.prop in ("C09", "C10", "C20", "C23")
    if main:
        r = account(c, tlc.run("Stack", tlc.cfg_text(
            dict(Handles={"s", "t"}, NM=2, MaxLen=3, MaxComp=2, MaxTok=1, MaxOps=3 if deep else 2, Sim=False,
                 Ops=ops), invariants=ST_INV, properties=ST_PROP, view="AbsView",
            action_constraint="EmitStep"), seed=c.seed), "Stack", "exhaustive, one behaviour per transition")
        c.replay("stack", thin(r.behaviours, 30000 if deep else 2500, c.seed), label="exhaustive")
    for i in range(4 if deep else 1):
        r = account(c, tlc.run("Stack", tlc.cfg_text(
            dict(Handles={"s", "t", "u"}, NM=6, MaxLen=7, MaxComp=8, MaxTok=3, MaxOps=22 if deep else 18, Sim=True,
                 Ops=ops), invariants=ST_INV + ["EmitDone"]), mode="sim", depth=24,
            num=(4000 if deep else 800) if main else 400, seed=c.seed * 100 + i), "Stack", "random histories")
        c.replay("stack", r.behaviours, repeats=2 if deep else 1, label="simulation")


@check("C12")
def profile(c):
    deep = thorough(c)
    inv = ["Ordered", "Filled", "AlignEnds", "Emit"]
    r = account(c, tlc.run("Profile", tlc.cfg_text(
        dict(MaxN=3, Thick={0, 1, 2} if deep else {0, 1}, NM=2, Shapes={"default"}, Sim=False, Ends={0}), invariants=inv),
        seed=c.seed), "Profile", "exhaustive")
    c.replay("profile", thin(r.behaviours, 40000 if deep else 4000, c.seed), label="exhaustive")
    for shapes, num in (({"default"}, 1500), ({"linear", "tanh", "sinusoidal", "exponential", "erf", "step", "anyshape"}, 800)):
        r = account(c, tlc.run("Profile", tlc.cfg_text(
            dict(MaxN=7, Thick={0, 1, 2, 5}, NM=4, Shapes=shapes, Sim=True, Ends={0, 1}), invariants=inv), mode="sim",
            num=num * (8 if deep else 1), depth=10, seed=c.seed), "Profile", "random stacks")
        c.replay("profile", r.behaviours, repeats=3 if deep else 2, label="simulation")
    # long stacks
    r = account(c, tlc.run("Profile", tlc.cfg_text(
        dict(MaxN=24, Thick={1, 2, 5}, NM=5, Shapes={"default"}, Sim=True, Ends={0, 1}), invariants=inv), mode="sim",
        num=4000 if deep else 500, depth=28, seed=c.seed), "Profile", "random long stacks")
    c.replay("profile", r.behaviours, repeats=3 if deep else 2, label="simulation")


# ------------------------------------------------------------------- optics
def exact_optics(c, n):
    inv = ["Passive", "Total", "Absentee", "Matched", "RealR", "Emit"]
    for ml, mq, mw, s in ((2, 1, 3, "D"), (3, 1, 2, "S"), (2, 2, 1, "S")):
        if not thorough(c) and ml == 3:
            continue
        r = account(c, tlc.run("Optics", tlc.cfg_text(
            dict(MaxLayers=ml, MaxQuarter=mq, MaxWaves=mw),
            overrides=dict(Fronts="FrontD", Clear="Clear" + s, Lossy="Lossy" + s, Evan="Evan" + s), invariants=inv),
            seed=c.seed, workers=4), "Optics", "exhaustive, exact Gaussian rationals")
        c.replay("optics", thin(r.behaviours, n, c.seed), opts=dict(what="exact"), label="exact",
                 repeats=3 if thorough(c) else 1)


@check("C13", "C04")
def optics(c):
    deep = thorough(c)
    exact_optics(c, 20000 if deep else (4000 if c.prop == "C13" else 400))
    inv = ["Consistent", "Emit"]
    r = account(c, tlc.run("Regimes", tlc.cfg_text(dict(MaxLayers=1, Sim=False), invariants=inv), seed=c.seed, workers=4),
                "Regimes", "exhaustive")
    c.replay("optics", thin(r.behaviours, 60000 if deep else (5000 if c.prop == "C13" else 500), c.seed),
             opts=dict(what="regimes"), label="regimes")
    r = account(c, tlc.run("Regimes", tlc.cfg_text(dict(MaxLayers=6, Sim=True), invariants=inv), mode="sim",
                num=40000 if deep else (5000 if c.prop == "C13" else 500), depth=10, seed=c.seed), "Regimes", "random stacks")
    c.replay("optics", r.behaviours, opts=dict(what="regimes"), repeats=2 if deep else 1, label="regimes")
    r = account(c, tlc.run("Regimes", tlc.cfg_text(dict(MaxLayers=40, Sim=True), invariants=inv), mode="sim",
                num=10000 if deep else (600 if c.prop == "C13" else 100), depth=45, seed=c.seed), "Regimes", "random tall stacks")
    c.replay("optics", r.behaviours, opts=dict(what="regimes"), repeats=2 if deep else 1, label="regimes")


@check("C14", "C04")
def points(c):
    deep = thorough(c)
    inv = ["EachOwn", "Same", "JoinSplits", "ThinFollows"]
    if c.prop == "C14":
        r = account(c, tlc.run("Points", tlc.cfg_text(
            dict(NW=2, NA=2, MaxLen=5 if deep else 4, MaxOps=4 if deep else 3, Sim=False), invariants=inv,
            view="AbsView", action_constraint="EmitStep"), seed=c.seed), "Points", "exhaustive, one behaviour per transition")
        c.replay("optics", thin(r.behaviours, 20000 if deep else 2000, c.seed), opts=dict(what="points"), label="points")
    r = account(c, tlc.run("Points", tlc.cfg_text(
        dict(NW=5, NA=4, MaxLen=18, MaxOps=14, Sim=True), invariants=inv + ["EmitDone"]), mode="sim",
        num=12000 if deep else (1500 if c.prop == "C14" else 200), depth=16, seed=c.seed), "Points", "random histories")
    c.replay("optics", r.behaviours, opts=dict(what="points"), repeats=2 if deep else 1, label="points")
    r = account(c, tlc.run("Points", tlc.cfg_text(
        dict(NW=14, NA=8, MaxLen=130, MaxOps=9, Sim=True), invariants=["EachOwn", "EmitDone"]), mode="sim",
        num=4000 if deep else (250 if c.prop == "C14" else 50), depth=11, seed=c.seed), "Points", "random histories, long lists")
    c.replay("optics", r.behaviours, opts=dict(what="points"), repeats=2 if deep else 1, label="points")


FORMSR = {"slab", "same", "pureA", "pureB", "solv0", "solvself", "solvfull", "explicit", "wrapped"}


@check("C15")
def rewrite(c):
    deep = thorough(c)
    r = account(c, tlc.run("Rewrite", tlc.cfg_text(
        dict(NM=2, MaxD=2, Big=2, MaxLen=4, MaxOps=3 if deep else 2, Forms={"slab", "same"}, Sim=False),
        invariants=["SameOptics"], view="AbsView", action_constraint="EmitStep"), seed=c.seed),
        "Rewrite", "exhaustive, one behaviour per transition")
    c.replay("optics", thin(r.behaviours, 60000 if deep else 3000, c.seed), opts=dict(what="rewrite"), label="rewrite")
    r = account(c, tlc.run("Rewrite", tlc.cfg_text(
        dict(NM=4, MaxD=4, Big=3, MaxLen=9, MaxOps=10, Forms=FORMSR, Sim=True),
        invariants=["SameOptics", "EmitSim"]), mode="sim", num=12000 if deep else 1500, depth=16, seed=c.seed),
        "Rewrite", "random rewritings")
    c.replay("optics", thin(r.behaviours, 100000 if deep else 8000, c.seed), opts=dict(what="rewrite"), label="rewrite")


# ---------------------------------------------------------------- analysis
FIT_INV = ["Once", "Sound", "JointUnion"]
FIT_PROP = ["OnlyNamed", "RefusedNothing", "LookNothing", "DataSafe", "CopySafe"]
FIT_OPS = {
    "C03": {"build", "set", "data", "eval", "joint", "look"},
    "C04": {"build", "set", "eval", "joint", "look"},
    "C16": {"build", "set", "link", "data", "eval", "restack"},
    "C17": {"build", "set", "link", "eval", "joint", "restack"},
    "C18": {"build", "set", "link", "eval", "joint", "look"},
    "C19": {"build", "set", "link", "data", "look"},
    "C20": {"build", "set", "link", "data", "eval", "copy", "restack"},
    "C23": {"build", "set", "link", "data", "eval", "joint", "restack"},
    "C24": {"build", "set", "link", "data", "joint", "fit", "restack"},
}


LOOKS = {"covar", "plot", "str", "repr", "prior", "splot", "spsamples", "pgen", "profile", "ellips", "ptstructure",
         "lists"}
FIT_LOOKS = {"C03": {"plot", "ellips"}, "C04": {"prior", "covar", "pgen", "ellips"}, "C18": {"prior", "lists", "pgen"}}


def fit_cfg(**k):
    d = dict(NMat=2, MaxFilm=3, MaxModel=3, MaxData=3, MaxObj=4, MaxLayers=3, NP=6, MaxPts=4, MaxOps=24, Sim=True,
             MaxCells=70, Seeded=True, Starts={"one", "twin", "pair"}, Looks=LOOKS)
    d.update(k)
    return d


@check("C03", "C04", "C16", "C17", "C18", "C19", "C20", "C23", "C24")
def fit(c):
    deep = thorough(c)
    ops = FIT_OPS[c.prop]
    looks = FIT_LOOKS.get(c.prop, LOOKS)
    main = c.prop not in ("C03", "C04")
    if c.prop == "C16":
        r = account(c, tlc.run("Circle", tlc.cfg_text(
            dict(P=16 if deep else 8, Angles=set(range(0, 40 if deep else 20)), Turns={0, 1, 2, 5}),
            invariants=["HalfTurn", "Symmetric", "Whole", "Zero", "Emit"]), seed=c.seed), "Circle", "exhaustive, exact")
        c.replay("fit", thin(r.behaviours, 20000 if deep else 3000, c.seed), opts=dict(what="circle"), label="circle")
    if main:
        # every transition of a small configuration
        r = account(c, tlc.run("Fit", tlc.cfg_text(
            fit_cfg(NMat=1, MaxFilm=1, MaxModel=1, MaxData=2, MaxObj=2, MaxLayers=1, NP=2, MaxPts=2,
                    MaxOps=2, Ops=ops, Looks=looks, Sim=False, MaxCells=30, Starts={"one"}),
            invariants=FIT_INV, properties=FIT_PROP, view="AbsView", action_constraint="EmitStep"), seed=c.seed,
            workers=1), "Fit", "exhaustive, one behaviour per transition")
        c.replay("fit", thin(r.behaviours, 12000 if deep else 800, c.seed), label="exhaustive")
        r = account(c, tlc.run("Fit", tlc.cfg_text(
            fit_cfg(Ops=ops, Looks=looks, MaxOps=16), invariants=FIT_INV), mode="sim", num=400 if deep else 60, depth=18,
            seed=c.seed), "Fit", "random histories, invariants")
    if c.prop == "C03":
        # one model, several datasets with different conventions
        for i in range(4 if deep else 1):
            r = account(c, tlc.run("Fit", tlc.cfg_text(
                fit_cfg(Ops={"build", "look", "eval", "data", "joint"}, Looks=looks, Starts={"twin"}, NMat=1, MaxFilm=1, MaxModel=1,
                        MaxObj=6, MaxData=4, MaxOps=14), invariants=["EmitDone"]), mode="sim", depth=40, num=2000 if deep else 300,
                seed=c.seed * 100 + 50 + i), "Fit", "random histories, one model, several conventions")
            c.replay("fit", thin(r.behaviours, 3000 if deep else 400, c.seed), label="simulation", limit=120)
    n = 600 if main else 250
    for i in range(6 if deep else 1):
        r = account(c, tlc.run("Fit", tlc.cfg_text(
            fit_cfg(Ops=ops, Looks=looks, MaxOps=(12, 24, 32)[i % 3] if c.prop != "C24" else (9, 14, 24)[i % 3]),
            invariants=["EmitDone"]), mode="sim", depth=40,
            num=n * (4 if deep else 1), seed=c.seed * 100 + i), "Fit", "random histories")
        c.replay("fit", thin(r.behaviours, n * (6 if deep else 1), c.seed), label="simulation", limit=120)
        if i == 0:
            r = account(c, tlc.run("Fit", tlc.cfg_text(
                fit_cfg(Ops=ops, Looks=looks, NMat=1, MaxFilm=2, MaxModel=2, MaxObj=3, MaxOps=24), invariants=["EmitDone"]), mode="sim",
                depth=40, num=n // 3 * (4 if deep else 1), seed=c.seed * 100 + 77), "Fit", "random histories, much sharing")
            c.replay("fit", thin(r.behaviours, n // 2 * (6 if deep else 1), c.seed), label="simulation", limit=120)
