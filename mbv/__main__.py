import argparse
import json
import os
import sys
import traceback


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int,
                    default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    a = ap.parse_args()
    from . import core, checks

    if a.replay:
        j = json.load(open(a.replay))
        with core.Silence():
            r = core.run_case((j["driver"], a.prop, j["behaviour"],
                               j["case_seed"], j["index"], j["opts"], 120))
        print(r)
        if r["status"] == "violation":
            print(f"VIOLATION property={a.prop} replay={a.replay}")
            return 1
        return 0
    c = core.Check(a.prop, a.tier, a.seed)
    try:
        checks.run(c)
    except core.MachineryError as e:
        if not c.violations:
            traceback.print_exc()
            print("MACHINERY:", e, file=sys.stderr)
            return 3
    return c.finish(None)


sys.exit(main())
