#!/usr/bin/env python3
"""Writes DESIGN.md from gen/table.py, the texts below, seeded/*/meta.json,
known_findings.json and (if there) the evidence of the last runs."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state, observe, **k):
    P.append(dict(id=id, title=title, statement=statement, qtext=qtext, why=why, files=files, **k))
exec(open(os.path.join(V, "gen/table.py")).read())

HEAD = open(os.path.join(V, "gen/design_head.md")).read()
TAIL = open(os.path.join(V, "gen/design_tail.md")).read()
PER = {}
for b in re.split(r"^## ", open(os.path.join(V, "gen/design_per.md")).read(), flags=re.M)[1:]:
    id, _, text = b.partition("\n")
    PER[id.strip()] = text.strip()

out = [HEAD.strip(), "\n\n# The properties and how each is decided\n"]
counts = json.load(open(os.path.join(V, "gen/counts.json")))
for p in P:
    out.append("\n## %s %s\n\n%s\n\n%s\n\n*Bounds*: %s. %s\n" % (p["id"], p["title"], p["statement"], PER[p["id"]], p["bounds"].rstrip("."), p["note"]))
    c = counts.get(p["id"])
    if c:
        out.append("\n*Cost* (8 cores, unchanged tree): " + "; ".join("%s %s executions, %s distinct outcomes, %.0f s" % (t, format(c[t][0], ","), format(c[t][1], ","), c[t][2]) for t in ("quick", "thorough") if t in c) + ".\n")
    out.append("\n*Why tests cannot settle it*: %s\n" % p["why"])
out.append("\n" + TAIL.strip() + "\n")
out.append("\n## Defects found\n\nEach was shown on the real code by a check (a replayable schedule or history) before it was repaired; `fix:` commits in /repo, listed in known_findings.json:\n\n| property | commit | what failed |\n|---|---|---|\n")
known = []
for f in json.load(open(os.path.join(V, "known_findings.json"))):
    if "fixed" in f:
        m = re.match(r"fixed: property=(\S+) (\S+) (.*)", f["fixed"])
        out.append("| %s | %s | %s |\n" % m.groups())
    else:
        known.append(f)
out.append("\n## Known findings (not repaired)\n\n")
for f in known:
    out.append("* **%s**, scenario `%s`: %s. %s\n" % (f["property"], f["scenario"], f["what"], f.get("why", "")))
out.append("\n## Planted bugs\n\nWritten from the text of a property and the code, kept in seeded/ whether caught or not; `gen/mkseed.py recheck` confirms for each that it applies, builds, passes the tests, fails its demonstration, and runs the checks. All of them are caught by the quick check of their property:\n\n| bug | property | manifests with |\n|---|---|---|\n")
for f in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    m = json.load(open(f))
    out.append("| %s | %s | %s |\n" % (f.split("/")[-2], m["property"], m["needs"]))
open(os.path.join(V, "DESIGN.md"), "w").write("".join(out))
