"""Writes MANIFEST.json from the properties and the check modules that exist."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
T = json.load(open(os.path.join(V, "tools", "techniques.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "rvm", "props", i.lower() + ".py")):
        checks.append(dict(property=i, quick_cmd="/opt/venv/bin/python rvm/run.py %s --tier quick" % i,
            thorough_cmd="/opt/venv/bin/python rvm/run.py %s --tier thorough" % i, evidence_file="evidence/%s.json" % i,
            technique=T[i][0], level="exploration", level_note=T[i][1]))
    else:
        na.append(dict(property=i, reason="no check built yet"))
m = dict(version=1, setup_cmd="/opt/venv/bin/python -c 'import numpy, scipy, matplotlib, plotly'", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
