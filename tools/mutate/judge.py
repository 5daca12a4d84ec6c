#!/usr/bin/env python3
"""judge.py ALIVE.jsonl OUT.jsonl [PART]: for each change, the checks of the properties anchored in its file (most specific
first) until one reports it. One line per change: {"mut", "by"} with by = null if none of them did."""
import sys, json, subprocess, os, tempfile, shutil, re
src, out = sys.argv[1], sys.argv[2]
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(os.path.dirname(here))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
done = set()
if os.path.exists(out):
    for l in open(out): done.add(json.dumps(json.loads(l)["mut"], sort_keys=True))
prio = {}
env = dict(os.environ, GOFLAGS="-mod=mod", GOTELEMETRY="off", VERIF_TIER="quick", VERIF_SEED="1", CGO_ENABLED="0")
f = open(out, "a")
for l in open(src):
    m = json.loads(l)
    if json.dumps(m, sort_keys=True) in done: continue
    if len(sys.argv) > 3 and m["Start"] % 3 != int(sys.argv[3]): continue
    rel = os.path.relpath(m["File"], "/repo")
    ids = [(len(p["anchors"]["files"]) - prio.get((rel, p["id"]), 0), p["id"]) for p in props if rel in p["anchors"]["files"]]
    ids = [i for _, i in sorted(ids)]
    d = tempfile.mkdtemp(prefix="judge-")
    try:
        s = open(m["File"], "rb").read()
        open(d + "/x.go", "wb").write(s[:m["Start"]] + m["Text"].encode() + s[m["End"]:])
        json.dump({"Replace": {m["File"]: d + "/x.go"}}, open(d + "/o.json", "w"))
        h = d + "/h"; os.mkdir(h)
        for x in os.listdir(root + "/harness"):
            if x.endswith(".go") or x.startswith("go."): shutil.copy(root + "/harness/" + x, h)
        c = open(h + "/ctx.go").read()  # an eighth of the cases
        assert "return quick * m[0]" in c
        open(h + "/ctx.go", "w").write(c.replace("return quick * m[0]", "return (quick*m[0] + 7) / 8"))
        b = subprocess.run(["go", "build", "-overlay", d + "/o.json", "-o", d + "/verif", "."], cwd=h, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if b.returncode: print("BUILD", m["File"], m["Line"], b.stdout[:300], flush=True); continue
        by = None
        for i in ids:
            e = dict(env, VERIF_DIR=d, CGO_ENABLED="0")
            bin = d + "/verif"
            os.makedirs(d + "/evidence", exist_ok=True)
            if os.path.exists(root + "/known_findings.txt"): shutil.copy(root + "/known_findings.txt", d)
            if i in ("C34", "C07", "C08", "C35"): continue  # slow, or they need the command line tools
            if i == "C07":
                e["CGO_ENABLED"] = "1"; bin = d + "/verifr"
                subprocess.run(["go", "build", "-race", "-overlay", d + "/o.json", "-o", bin, "."], cwd=h, env=dict(env, CGO_ENABLED="1"))
            try: r = subprocess.run([bin, "run", i], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
            except subprocess.TimeoutExpired: by = i + ":timeout"; break
            if r.returncode != 0:
                by = i; prio[(rel, i)] = prio.get((rel, i), 0) + 0.05; break
        f.write(json.dumps({"mut": m, "by": by}) + "\n"); f.flush()
        print(by, rel, m["Line"], m["Op"], repr(m["From"][:60]), "->", repr(m["Text"][:60]), flush=True)
    finally: shutil.rmtree(d)
