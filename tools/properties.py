#!/usr/bin/env python3
"""Single source for properties.jsonl, config.json and MANIFEST.json."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REAL_CODEC = ["wreport library sources, compiled from /repo's working tree (decoder, encoder, tables, variables)", "table files of /repo/tables"]
STUB_FS = "file system, descriptors and clock: in-memory simulation behind the libc calls (linker --wrap), seeded faults"
STUB_STREAM = "byte streams: FILE* over simulated transports (fopencookie) with seeded chunking, errors, truncation"
STUB_HEAP = "allocator: operator new/delete and vasprintf replaced, seeded failure, fill pattern and accounting"
STUB_SCHED = "thread scheduling: real threads, one at a time, the seeded scheduler decides every switch"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, rule, real, stub, note, quick=None, thorough=None, probes=None, assumptions=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, rule=rule, real=real, stub=stub, note=note, quick=quick, thorough=thorough, probes=probes or [], assumptions=assumptions or [], observe=observe or []))

from proplist import define
define(prop, globals())

def main():
    built = set(json.load(open(os.path.join(V, "tools", "built.json"))))
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"], "hook_needed": None}}) + "\n")
            assert len(p["title"]) <= 80, p["title"]
    cfg = {"quick_s": 40, "thorough_s": 900, "properties": {}}
    checks, na = [], []
    for p in P:
        if p["note"] is None or p["id"] not in built:
            na.append({"property": p["id"], "reason": p["rule"] if p["note"] is None else "check not built yet"})
            continue
        c = {"rule": p["rule"], "real": p["real"], "stub": p["stub"], "assumptions": p["assumptions"], "must_probe": p["probes"]}
        if p["quick"]: c["quick_s"] = p["quick"]
        if p["thorough"]: c["thorough_s"] = p["thorough"]
        cfg["properties"][p["id"]] = c
        checks.append({"property": p["id"], "quick_cmd": "python3 run.py check %s --tier quick" % p["id"],
            "thorough_cmd": "python3 run.py check %s --tier thorough" % p["id"],
            "technique": "deterministic simulation with fault injection: seeded search over workloads, schedules and faults against a reference model",
            "level": "exploration", "level_note": p["note"]})
    json.dump(cfg, open(os.path.join(V, "config.json"), "w"), indent=1)
    fixes = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], stdout=subprocess.PIPE).stdout.decode().splitlines()
    m = {"version": 1, "setup_cmd": "python3 run.py build",
         "hooks": {"guard": "WREPORT_SIMULATION", "enable": "run.py compiles /repo's sources with -DWREPORT_SIMULATION; no source in /repo uses the guard so far: every seam is at link level (linker --wrap of libc calls, replaced operator new/delete, fopencookie streams)", "source_commits": []},
         "checks": checks, "not_applicable": na}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

main()
