"""Run TLC: exhaustive checks, transition coverage and random behaviours."""
import json
import os
import re
import shutil
import subprocess
import tempfile

from .core import MachineryError

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
CP = ("/opt/veriftools/tla/tla2tools.jar:"
      "/opt/veriftools/tla/CommunityModules-deps.jar")


def _val(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return f'"{v}"'
    if isinstance(v, (set, frozenset, list, tuple)):
        return "{" + ", ".join(sorted(_val(x) for x in v)) + "}"
    raise TypeError(v)


def cfg_text(constants, invariants=(), properties=(), view=None,
             constraint=None, action_constraint=None, init="Init",
             nxt="Next", overrides=None, spec=None, postcondition=None):
    out = []
    if spec:
        out.append(f"SPECIFICATION {spec}")
    else:
        out += [f"INIT {init}", f"NEXT {nxt}"]
    for k, v in (constants or {}).items():
        out.append(f"CONSTANT {k} = {_val(v)}")
    for k, v in (overrides or {}).items():
        out.append(f"CONSTANT {k} <- {v}")
    for i in invariants:
        out.append(f"INVARIANT {i}")
    for i in properties:
        out.append(f"PROPERTY {i}")
    if view:
        out.append(f"VIEW {view}")
    if constraint:
        out.append(f"CONSTRAINT {constraint}")
    if action_constraint:
        out.append(f"ACTION_CONSTRAINT {action_constraint}")
    if postcondition:
        out.append(f"POSTCONDITION {postcondition}")
    out.append("CHECK_DEADLOCK FALSE")
    return "\n".join(out) + "\n"


class Result:
    def __init__(self):
        self.states = 0          # distinct
        self.generated = 0       # transitions
        self.behaviours = []
        self.out = ""
        self.actions = {}
        self.ok = False


def run(module, cfg, mode="bfs", num=1000, depth=20, seed=1, workers=1,
        heap="3g", timeout=800, extra_modules=None, coverage=False,
        expect_violation=False, env=None):
    base = os.environ.get("MBV_SCRATCH") or tempfile.gettempdir()
    d = tempfile.mkdtemp(prefix="tlc", dir=base)
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
        for name, text in (extra_modules or {}).items():
            p = os.path.join(d, name)
            if os.path.islink(p):
                os.unlink(p)
            open(p, "w").write(text)
        open(os.path.join(d, "m.cfg"), "w").write(cfg)
        cmd = ["java", f"-Xmx{heap}", "-XX:+UseParallelGC",
               "-XX:ParallelGCThreads=2", "-Dtlc2.tool.impl.Tool.cdot=true",
               "-cp", CP, "tlc2.TLC", "-config", "m.cfg", "-noGenerateSpecTE",
               "-metadir", os.path.join(d, "states"),
               "-workers", str(workers), "-lncheck", "final"]
        if coverage:
            cmd += ["-coverage", "1"]
        if mode == "sim":
            cmd += ["-simulate", f"num={num}", "-depth", str(depth),
                    "-seed", str(seed)]
        else:
            cmd += ["-fp", str(seed % 100), "-seed", str(seed)]
        cmd.append(module + ".tla")
        try:
            p = subprocess.run(cmd, cwd=d, capture_output=True, text=True,
                               timeout=timeout, env=dict(os.environ, **(env or {})))
        except subprocess.TimeoutExpired:
            raise MachineryError(f"TLC timed out on {module}")
        r = Result()
        rest = []
        seen = set()
        for line in p.stdout.splitlines():
            if line.startswith('"') and line.endswith('"'):
                if line in seen:
                    continue
                seen.add(line)
                try:
                    r.behaviours.append(json.loads(json.loads(line)))
                except ValueError:
                    rest.append(line)
            else:
                rest.append(line)
        r.out = "\n".join(rest)
        r.rc = p.returncode
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", r.out)
        if m:
            r.generated, r.states = int(m[-1][0]), int(m[-1][1])
        m = re.findall(r"The number of states generated: (\d+)", r.out)
        if m and not r.states:
            r.generated = r.states = int(m[-1])
        for m in re.finditer(r"^<(\w+) line [^>]*>: (\d+):(\d+)", r.out, re.M):
            r.actions[m.group(1)] = r.actions.get(m.group(1), 0) + int(m.group(3))
        bad = ("is violated" in r.out or "Error:" in r.out
               or "Exception" in r.out or p.returncode not in (0,))
        r.ok = not bad
        if bad and not expect_violation:
            lines = [x for x in r.out.splitlines() if not x.startswith(("Parsing file", "Semantic processing"))]
            errs = [x for x in lines if "Error" in x or "violated" in x or "ttempted" in x]
            tail = "\n".join(errs[:10] + lines[-40:])
            raise MachineryError(f"TLC failed on {module} ({mode}):\n{tail}\n{p.stderr[-500:]}")
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)
