"""Writes MANIFEST.json from the registry of checks."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, root)
from mbv import checks
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
MODS = {
 "C01": "Dataset.tla", "C02": "Dataset.tla", "C03": "Dataset.tla, Fit.tla",
 "C04": "Dataset.tla, RITable.tla, Dispersion.tla, Optics.tla, Regimes.tla, Points.tla, Fit.tla",
 "C05": "EP4.tla", "C06": "M2000.tla", "C07": "FilmSense.tla", "C08": "Horiba.tla",
 "C09": "Stack.tla", "C10": "Stack.tla", "C11": "EMA.tla, Media.tla", "C12": "Profile.tla",
 "C13": "Optics.tla, Regimes.tla, Stack.tla", "C14": "Points.tla", "C15": "Rewrite.tla", "C16": "Fit.tla, Circle.tla",
 "C17": "Fit.tla, Stack.tla", "C18": "Fit.tla", "C19": "Fit.tla", "C20": "Dataset.tla, Dispersion.tla, Stack.tla, Fit.tla",
 "C21": "RITable.tla, Shipped.tla", "C22": "Dispersion.tla", "C23": "Dispersion.tla, Stack.tla, Fit.tla", "C24": "Fit.tla",
}
out = dict(version=1,
  setup_cmd="bash tools/setup.sh",
  checks=[], not_applicable=[])
for p in props:
    i = p["id"]
    if i in checks.REG:
        out["checks"].append(dict(property=i, quick_cmd=f"./check {i} --tier quick",
            thorough_cmd=f"./check {i} --tier thorough",
            technique=f"TLA+ specification ({MODS[i]}) checked with TLC; TLC-generated behaviours replayed into the real code",
            level="model_checking",
            level_note="TLC checks the design properties of the specification within stated constants; every generated behaviour (exhaustive for small constants, seeded random for larger ones) is replayed in the real code and each step's observation compared with the specification"))
    else:
        out["not_applicable"].append(dict(property=i, reason="check not built yet"))
json.dump(out, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(out["checks"]), "claimed")
