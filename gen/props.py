#!/usr/bin/env python3
"""Writes properties.jsonl, checks.json and MANIFEST.json from one table."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, qtext, why, files, mechanism, state, observe,
         bin=None, race=False, level="model_checking", quick=60, deep=1200,
         technique="", note="", rule="", bounds="", assume=(), na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                  files=files, mechanism=mechanism, state=state, observe=observe, bin=bin,
                  race=race, level=level, quick=quick, deep=deep, technique=technique,
                  note=note, rule=rule, bounds=bounds, assume=list(assume), na=na))

exec(open(os.path.join(V, "gen/table.py")).read())

TECH = "stateless model checking of the real code: "
BASE = [
    "goroutines switch only at synchronisation operations (data races are checked separately by P31)",
    "the Go toolchain, the avro and lru libraries and the scheduler/rewriter in /verif/vs and /verif/tool are trusted",
]
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": p["mechanism"], "state": p["state"],
                        "observe_at": p["observe"], "hook_needed": "none: the code is rewritten at build time"},
        }, ensure_ascii=False) + "\n")
checks = {}
man = []
na = []
for p in P:
    if p["na"]:
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    checks[p["id"]] = {"bin": p["bin"], "race": p["race"], "level": p["level"], "quick_s": p["quick"],
                       "deep_s": p["deep"], "rule": p["rule"], "bounds": p["bounds"],
                       "assumptions": p["assume"] + BASE}
    man.append({"property": p["id"], "quick_cmd": "bash run.sh %s quick" % p["id"],
                "thorough_cmd": "bash run.sh %s thorough" % p["id"],
                "technique": TECH + p["technique"], "level": p["level"],
                "level_note": p["note"], "evidence_file": "evidence/%s.json" % p["id"]})
json.dump(checks, open(os.path.join(V, "checks.json"), "w"), indent=1)
json.dump({
    "version": 1,
    "setup_cmd": "bash run.sh setup",
    "hooks": {"guard": "none", "enable": "no hooks: every check copies /repo's working tree to a scratch directory and rewrites the copy (go/chan/lock/time/map operations) against the controlled scheduler /verif/vs", "source_commits": []},
    "checks": man, "not_applicable": na,
    "notes": "Each check rebuilds from /repo's working tree. Replay a violation with: bash run.sh replay evidence/replays/<id>.json",
}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(json.load(open(os.path.join(V, "MANIFEST.json"))), json.load(open("/root/.vp/MANIFEST.schema.json")))
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for l in open(os.path.join(V, "properties.jsonl")):
        jsonschema.validate(json.loads(l), s)
    print("valid", len(P), "properties", len(man), "claimed")
except ImportError:
    print("no jsonschema")
