#!/usr/bin/env python3
"""filter.py MUTS.jsonl OUT.jsonl N_OTHER N_VARIABLE WORKERS: a random sample of the changes that gen.go lists; those that
build and pass the repository's tests are written to OUT."""
import sys, json, random, subprocess, os, tempfile, threading, queue
src, out, n1, n2, w = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5])
ms = [json.loads(l) for l in open(src)]
random.seed(int(os.environ.get("SAMPLE", "1")))
a = [m for m in ms if m["Op"] != "variable"]; b = [m for m in ms if m["Op"] == "variable"]
random.shuffle(a); random.shuffle(b)
ms = a[:n1] + b[:n2]; random.shuffle(ms)
q = queue.Queue()
for m in ms: q.put(m)
lock = threading.Lock(); f = open(out, "a"); cnt = {}
env = dict(os.environ, GOFLAGS="-mod=mod", GODEBUG="randautoseed=0")
def run(cmd, t):
    p = subprocess.Popen(cmd, cwd="/repo", env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
    try: return p.wait(t)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.wait(); return 99
def work():
    while True:
        try: m = q.get_nowait()
        except queue.Empty: return
        with tempfile.TemporaryDirectory() as d:
            s = open(m["File"], "rb").read()
            s = s[:m["Start"]] + m["Text"].encode() + s[m["End"]:]
            open(d + "/x.go", "wb").write(s)
            json.dump({"Replace": {m["File"]: d + "/x.go"}}, open(d + "/o.json", "w"))
            r = "build"
            if run(["go", "test", "-overlay", d + "/o.json", "-vet=off", "-c", "-o", d + "/t", "./featselect"], 300) == 0:
                p = subprocess.Popen([d + "/t"], cwd="/repo/featselect", env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
                try: r = "tests" if p.wait(40) else "alive"
                except subprocess.TimeoutExpired:
                    os.killpg(p.pid, 9); p.wait(); r = "hang"
            with lock:
                cnt[r] = cnt.get(r, 0) + 1
                if r == "alive": f.write(json.dumps(m) + "\n"); f.flush()
                print(cnt, flush=True)
for t in [threading.Thread(target=work) for _ in range(w)]: t.start()
