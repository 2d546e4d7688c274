#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the descriptions below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), note="", technique=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=None),
        note=note, technique=technique or "deterministic simulation with fault injection (seeded search over schedules and faults), reference model as oracle"))

T = "tree/transparency/"

exec(open(os.path.join(V, "bin", "props_text.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        q = {k: v for k, v in p.items() if k not in ("note", "technique")}
        f.write(json.dumps(q) + "\n")

base = ("Sampled, not enumerated: each seed is one exactly repeatable execution of the real server, client, auditor "
        "and database code in one process. Assumes that goroutines only interact at store operations, channels, timers "
        "and (C10, C17, C24) between statements, and that SHA-256, signatures and VRFs are ideal (keyed hashes in most runs, the real suites in the others). ")
json.dump(dict(
    version=1,
    setup_cmd="bash bin/build.sh",
    checks=[dict(property=p["id"],
                 quick_cmd="bash bin/check.sh %s quick" % p["id"],
                 thorough_cmd="bash bin/check.sh %s thorough" % p["id"],
                 technique=p["technique"], level="exploration",
                 level_note=base + p["note"]) for p in P],
    not_applicable=NA,
    notes="One simulator (sim/) decides all properties; see DESIGN.md. /repo has no hooks: all seams are its own "
          "interfaces, a copy of goleveldb with a simulated disk below it, and an overlay of the Go standard library.",
), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
