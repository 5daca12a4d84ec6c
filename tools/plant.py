#!/usr/bin/env python3
"""Builds and confirms planted bugs.
usage: plant.py SPEC.py [id...]   SPEC.py defines bugs = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=go test source or
(file name, text) list with demo.sh)]. Each is tried in a scratch copy of /repo: the patch must apply, build, keep the stable
tests, and its demonstration must pass without and fail with it. Confirmed ones are written to /verif/seeded/<id>/."""
import sys, os, json, subprocess, shutil, tempfile, importlib.util
DEMO = '''#!/bin/bash
# run in the root of the repository: exit 0 if the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
tmp=$(mktemp -d) || exit 1
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%s/featselect/zz_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$here" > "$tmp/overlay.json"
CGO_ENABLED=RACECGO go test -overlay "$tmp/overlay.json" -vet=off -count=1 -timeout 200s -run '^TestDemo$' RACE ./featselect
'''
def sh(c, cwd, timeout=400, env=None):
    return subprocess.run(["bash", "-c", c], cwd=cwd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
spec = importlib.util.spec_from_file_location("spec", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
only = set(sys.argv[2:])
base = json.load(open("/opt/vp/BASELINE.json"))
def names(x):
    if isinstance(x, dict):
        for k in ("passed", "pass", "stable", "tests"):
            if k in x: return set(names(x[k]))
    return x
stable = names(base)
orig = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], stdout=subprocess.PIPE, text=True).stdout.split()[0]
for b in m.bugs:
    if only and b["id"] not in only: continue
    top = tempfile.mkdtemp(prefix="plant-"); w = top + "/repo"
    try:
        shutil.copytree("/repo", w, symlinks=True)
        ok = True
        for f, old, new in b["edits"]:
            s = open(w + "/" + f).read()
            if s.count(old) != 1:
                print(b["id"], "EDIT", f, s.count(old), repr(old)[:80]); ok = False; break
            open(w + "/" + f, "w").write(s.replace(old, new))
        if not ok: continue
        sh("gofmt -w " + " ".join(set(e[0] for e in b["edits"])), w)
        diff = sh("git diff", w).stdout
        # some removed line must belong to the original repository
        base_lines = {}
        hit = False
        cur = None
        for l in diff.split("\n"):
            if l.startswith("--- a/"):
                cur = set(subprocess.run(["git", "-C", "/repo", "show", orig + ":" + l[6:]], stdout=subprocess.PIPE, text=True).stdout.split("\n"))
            elif l.startswith("-") and not l.startswith("---") and l[1:].strip() and l[1:] in cur: hit = True
        d = top + "/demo"; os.mkdir(d)
        if isinstance(b["demo"], str):
            open(d + "/demo_test.go", "w").write(b["demo"])
            open(d + "/demo.sh", "w").write(DEMO.replace("RACECGO", "1" if b.get("race") else "0").replace("RACE", "-race" if b.get("race") else ""))
        else:
            for fn, text in b["demo"]: open(d + "/" + fn, "w").write(text)
        os.chmod(d + "/demo.sh", 0o755)
        bld = sh(". /opt/vp/env.sh; go build ./... && go vet ./featselect >/dev/null 2>&1; go build ./...", w)
        if bld.returncode: print(b["id"], "BUILD", bld.stdout); continue
        t = sh("sed 's#cd /repo#cd %s#' /opt/vp/test.sh > %s/t.sh; bash %s/t.sh %s/out.json" % (w, top, top, top), w)
        o = json.load(open(top + "/out.json"))
        miss = sorted(stable - names(o))
        with_ = sh("timeout 300 bash " + d + "/demo.sh", w)
        sh("git checkout -- .", w)
        without = sh("timeout 300 bash " + d + "/demo.sh", w)
        verdict = not miss and with_.returncode != 0 and without.returncode == 0 and hit
        print(b["id"], b["property"], "OK" if verdict else "REJECTED", "tests missing:", miss, "demo with/without:", with_.returncode, without.returncode, "original line:", hit)
        if not verdict:
            if without.returncode: print(without.stdout[-1500:])
            continue
        out = "/verif/seeded/" + b["id"]
        shutil.rmtree(out, ignore_errors=True); shutil.copytree(d, out)
        open(out + "/patch.diff", "w").write(diff)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(out + "/meta.json", "w"), indent=1)
    finally:
        shutil.rmtree(top, ignore_errors=True)
