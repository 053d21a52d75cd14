"""Known findings (committed; never written at run time)."""
import json
import os


def _load():
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                     "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("open", [])


def match(prop, msg):
    for k in _load():
        if k["property"] == prop and k["match"] in msg:
            return k["what"]
    return None
