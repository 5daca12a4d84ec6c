#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the monitors registered in harness/*.go."""
import json, os, re, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
reg = set()
for f in glob.glob(root + "/harness/*.go"):
    reg |= set(re.findall(r'register\("(C\d+)"', open(f).read()))
race = set(open(root + "/harness/race.txt").read().split())
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
tech = {
 "C01": "runtime monitor: search result vs exhaustive AICc oracle under delayed schedules",
 "C07": "Go race detector over concurrent workloads + online snapshot checker",
 "C08": "runtime monitor: bounded-progress watchdog, goroutine-leak and deadlock detection under the race-instrumented build",
 "C09": "runtime monitor: concurrent pollers checking a monotone trace specification",
 "C34": "runtime monitor: end-to-end runs of the built binary, result files recomputed",
 "C38": "runtime monitor with fault injection: damaged inputs, failing readers and unwritable outputs, acceptance observed",
 "C39": "runtime monitor: calls with arguments that do not fit, observed through hashes of everything they can reach and the goroutine table",
 "C40": "Go race detector over groups of concurrent calls, each result compared with the same call made alone",
 "C41": "runtime monitor: finalizers on argument arrays, live heap and open descriptors observed over long series of calls",
 "C42": "runtime monitor: memory reachable from results compared with that of arguments and other results, results overwritten between repeated calls",
 "C43": "runtime monitor: recorded call histories, each result compared with that of the same call made alone in a new process",
 "C36": "runtime monitor: plots rendered to a recording canvas, recorded strokes compared",
}
def technique(p):
    return tech.get(p["id"], "runtime monitoring: executions on generated workloads judged by an independent reference oracle")
checks, na = [], []
for p in props:
    i = p["id"]
    if i in reg:
        checks.append({"property": i, "quick_cmd": "./run.sh %s quick" % i, "thorough_cmd": "./run.sh %s thorough" % i,
          "technique": technique(p), "level": "exploration",
          "level_note": "Held on the executions observed (counts in the evidence file): seeded, diverse workloads against the real code%s, judged by an oracle that recomputes the answer independently. Not a proof; trusts the reference computations in /verif/harness." % (" built with the race detector" if i in race else "")})
    else:
        na.append({"property": i, "reason": "the monitor for this property is not built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "All monitors live in /verif/harness (one Go program using only the exported API of /repo, rebuilt from the working tree by run.sh). No hooks are needed in /repo."}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
