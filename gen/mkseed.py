#!/usr/bin/env python3
"""Development tool: makes and validates /verif/seeded/<id>/ from a spec file.

usage: mkseed.py SPEC.py [id...]   (SPEC.py calls seed(...) for each bug)
       mkseed.py recheck [id...]   re-validates the existing ones
Works on a scratch copy of /repo; never touches /repo itself."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = tempfile.mkdtemp(prefix="seedw", dir="/tmp")
R = W + "/repo"
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod")
BASE = "5034bf2"
SEEDS = []

def seed(id, prop, edits, pkg, test, needs, breaks, extra_overlay=(), race=False, check=None, sarama=False):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, pkg=pkg, test=test, needs=needs, breaks=breaks, extra=extra_overlay, race=race, check=check or prop, sarama=sarama))

def sh(cmd, cwd=R, timeout=900, env=ENV):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr

def reset():
    sh("git checkout -q -- . && git clean -qfd")

DEMO = '''#!/bin/bash
# Runs demo_test.go (beside this file) inside the package it demonstrates.
D="$(cd "$(dirname "$0")" && pwd)"
R="$PWD"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
O="$(mktemp -d)" || exit 2
trap 'rm -rf "$O"' EXIT
cat > "$O/overlay.json" <<EOT
{"Replace": {%(repl)s}}
EOT
%(pre)sgo test -count=1 -vet=off%(race)s%(mod)s -timeout 200s -overlay "$O/overlay.json" -run '^TestZZDemo$' ./%(pkg)s
'''

SARAMA = '''# an in-memory Kafka (sarama/, beside this file) stands in for the client library
cp "$R/go.mod" "$R/go.sum" "$O/"
mkdir "$O/sarama"
cp "$D/sarama/sarama.go" "$O/sarama/"
echo "module github.com/Shopify/sarama" > "$O/sarama/go.mod"
echo "replace github.com/Shopify/sarama => $O/sarama" >> "$O/go.mod"
'''

def stable():
    rc, out = sh("go build ./delivery/... ./transports/... ./waiter/...")
    if rc: return "BUILD FAILS " + out[-800:]
    ok = set()
    for _ in range(4):  # TestFailedReconstructPanic fails now and then on the base commit too
        rc, out = sh("go test -json -vet=off -count=1 -timeout 10m ./delivery/... ./transports/...")
        for l in out.splitlines():
            try: d = json.loads(l)
            except ValueError: continue
            if d.get("Action") == "pass" and d.get("Test"): ok.add(d["Package"] + "/" + d["Test"])
        if not rc: break
    miss = [t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"] if t not in ok]
    return "TESTS FAIL %s" % miss if miss else ""

def validate(d, prop):
    reset()
    res = []
    rc, out = sh("bash %s/demo.sh" % d)
    if rc: res.append("DEMO FAILS CLEAN: " + out[-1500:])
    rc, out = sh("git apply %s/patch.diff" % d)
    if rc: return ["NO APPLY " + out]
    e = stable()
    if e: res.append(e)
    rc, out = sh("bash %s/demo.sh" % d)
    if rc == 0: res.append("DEMO PASSES WITH PATCH")
    ms = [l.strip() for l in out.splitlines() if "demo_test.go" in l or "panic" in l or "RACE" in l]
    rc, out = sh("bash run.sh %s quick" % prop, cwd=V, env=dict(ENV, VERIF_REPO=R))
    l = [x for x in out.splitlines() if "VIOLATION" in x or "KNOWN" in x or "quick:" in x] or [out[-300:]]
    res.append("check %s rc=%d %s" % (prop, rc, l[0][:150]))
    if rc != 1: res.append("MISSED")
    res.append("demo said: " + " / ".join(ms)[:200])
    reset()
    return res

def main():
    subprocess.run(["cp", "-a", "/repo", R], check=True)
    reset()
    if sys.argv[1] == "recheck":
        for id in sys.argv[2:] or sorted(os.listdir(V + "/seeded")):
            d = V + "/seeded/" + id
            if not os.path.exists(d + "/meta.json"): continue
            m = json.load(open(d + "/meta.json"))
            print(id, *validate(d, m["property"]), sep="\n   ", flush=True)
        return
    exec(open(sys.argv[1]).read(), globals())
    for s in SEEDS:
        if sys.argv[2:] and s["id"] not in sys.argv[2:]: continue
        reset()
        bad = None
        for f, old, new in s["edits"]:
            t = open(R + "/" + f).read()
            if t.count(old) != 1:
                bad = "edit matches %d times: %r" % (t.count(old), old)
                break
            open(R + "/" + f, "w").write(t.replace(old, new))
        if bad:
            print(s["id"], bad); continue
        rc, diff = sh("git diff")
        # every removed line must be an original one
        files = sorted({e[0] for e in s["edits"]})
        removed = 0; mine = []
        for f in files:
            rc, bl = sh("git blame -s HEAD -- " + f)
            bl = bl.splitlines()
            rc, fd = sh("git diff -U0 -- " + f)
            for h in [x for x in fd.splitlines() if x.startswith("@@")]:
                a = h.split()[1][1:]
                st, n = (a.split(",") + ["1"])[:2]
                for i in range(int(st), int(st) + int(n)):
                    removed += 1
                    if BASE not in bl[i-1].split()[0] and not bl[i-1].startswith("^"): mine.append(bl[i-1])
        if mine: print(s["id"], "CHANGES MY LINES", *mine, sep="\n     ")
        if not removed: print(s["id"], "note: only adds lines")
        d = V + "/seeded/" + s["id"]
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo_test.go", "w").write(s["test"].lstrip())
        repl = ['"$R/%s/zz_demo_test.go": "$D/demo_test.go"' % s["pkg"]] + ['"$R/%s": ""' % x for x in s["extra"]]
        open(d + "/demo.sh", "w").write(DEMO % dict(repl=", ".join(repl), pkg=s["pkg"], race=" -race" if s["race"] else "", pre=SARAMA if s["sarama"] else "", mod=' -modfile "$O/go.mod"' if s["sarama"] else ""))
        if s["sarama"]:
            os.mkdir(d + "/sarama")
            shutil.copy(V + "/gen/demosarama/sarama.go", d + "/sarama/sarama.go")
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        sh("gofmt -l %s/demo_test.go" % d)
        print(s["id"], *validate(d, s["check"]), sep="\n   ", flush=True)

try:
    main()
finally:
    shutil.rmtree(W, ignore_errors=True)
