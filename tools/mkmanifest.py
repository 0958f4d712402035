#!/usr/bin/env python3
"""Writes MANIFEST.json from the list below and properties.jsonl."""
import json, subprocess, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{HERE}/properties.jsonl")]
NOTE = {}
exec(open(f"{HERE}/tools/notes.py").read())
NA = {
 "N01": "Converting, indexing and comparing values in memory is a pure function of its input: no schedule, clock, fault or interleaving takes part, so simulation has nothing to decide. What reaches peers through it (content of messages, paths) is judged under C04, C12, C16 and C03.",
 "N02": "Rendering is a pure function of a message, for people only; no peer, store or schedule depends on it. That it never crashes on hostile content is judged under C03.",
 "N03": "The schema store and credential verification live in the sample application, which is not part of any build target of this crate (its sources do not compile against it offline), so there is no code to run under the simulator.",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NOTE:
        checks.append({
            "property": i,
            "quick_cmd": f"./run_check.sh {i} quick",
            "thorough_cmd": f"./run_check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": "deterministic simulation with fault injection (" + NOTE[i][0] + ")",
            "level": "exploration",
            "level_note": NOTE[i][1],
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "no check yet")})
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
m = {
    "version": 1,
    "setup_cmd": "./run_check.sh build",
    "hooks": {
        "guard": "cfg(keride_sim)",
        "enable": "RUSTFLAGS=\"--cfg keride_sim\" (env.sh, used by run_check.sh)",
        "source_commits": [l.split()[0] for l in hooks if l.split(" ", 1)[1].startswith("hook:")],
    },
    "checks": checks,
    "not_applicable": na,
    "notes": "One crate, sim/ (ksim), holds the simulator and all checks; run_check.sh builds it against /repo and runs one property. Replay: sim/target/debug/ksim replay <file>.",
}
json.dump(m, open(f"{HERE}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
