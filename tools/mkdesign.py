"""Fill tools/design.md with the repaired defects and the planted bugs: writes DESIGN.md."""
import json
import pathlib

V = pathlib.Path(__file__).resolve().parent.parent
fixed = [json.loads(l)["what"] for l in (V / "known_findings.jsonl").read_text().splitlines() if l.strip()]
by = {}
for w in fixed:
    _, prop, commit, what = w.split(" ", 3)
    by.setdefault(what, [commit, []])[1].append(prop.split("=")[1])
F = ["| commit | property | what failed |", "|---|---|---|"]
F += ["| %s | %s | %s |" % (c, ", ".join(sorted(p)), what) for what, (c, p) in sorted(by.items(), key=lambda t: sorted(t[1][1]))]
caught = {}
f = V / "tools" / "caught.tsv"
for l in f.read_text().splitlines():
    i, p, m = l.split("\t")
    caught.setdefault(i, []).append("%s (%s)" % (p, m))
S = ["| bug | what it breaks | needs | caught by |", "|---|---|---|---|"]
for d in sorted((V / "seeded").iterdir()):
    if (d / "meta.json").exists():
        m = json.loads((d / "meta.json").read_text())
        S.append("| %s | %s | %s | %s |" % (d.name, m["what_it_breaks"], m["needs"], "; ".join(caught.get(d.name, ["-"]))))
t = (V / "tools" / "design.md").read_text()
(V / "DESIGN.md").write_text(t.replace("__FIXED__", "\n".join(F)).replace("__SEEDS__", "\n".join(S)))
