"""Writes MANIFEST.json from properties.jsonl and na.json."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
na = json.load(open(os.path.join(here, "na.json")))
race = {"C03", "C05", "C11", "C12"}
note = {
 "C10": "The bound on progress is the documented purge policy (MinAction and FilteredToEmitted), with slack; simulated clock.",
 "C12": "Races are decided by the Go race detector on seeded schedules in which the simulator adds no happens-before edges of its own; only the code's own locks and atomics order accesses.",
 "C15": "Progress: no deadlock, no lock wait while only AddPattern callers are stalled, and at most 400 M simulated steps per call.",
 "C17": "Storage failures come from a user-supplied LivePatternsState that fails, blocks, or takes effect and then fails.",
}
checks = []
for l in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    if i in na:
        continue
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py " + i,
        "thorough_cmd": "python3 check.py %s --tier thorough" % i,
        "technique": "deterministic simulation with fault injection: seeded search over schedules, faults and client programs of the real code"
                     + (", data races by the Go race detector" if i in race else "") + ", against an executable reference model",
        "level": "exploration",
        "level_note": ("Seeded sampling, not exhaustive: it held on the runs counted in the evidence file. Trusts the scenario generators, the reference model and the "
                       "statement-level instrumenter; interleavings inside one statement are seen only by the race detector. " + note.get(i, "")).strip(),
    })
m = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in na.items()],
    "notes": "No hooks in /repo: check.py instruments a copy of the working tree and builds it with go build -overlay. "
             "Defects found and repaired are the fix: commits in /repo, listed in known_findings.json. Replay a violation with: python3 check.py replay FILE",
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
