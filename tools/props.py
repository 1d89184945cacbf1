#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json for the properties that have a program (programs.json)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROG = json.load(open(f"{V}/programs.json"))
HOOK_COMMITS = open(f"{V}/tools/hook_commits.txt").read().split() if os.path.exists(f"{V}/tools/hook_commits.txt") else []
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, tech, note, hook=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, observe=observe, tech=tech, note=note, hook=hook, state=state))
exec(open(f"{V}/tools/props_table.py").read())
with open(f"{V}/properties.jsonl", "w") as f:
    for x in P:
        if x["id"] not in PROG: continue
        a = {"files": x["files"], "mechanism": [{"name": n, "where": w} for n, w in x["mech"]],
             "observe_at": x["observe"], "hook_needed": x["hook"]}
        if x["state"]: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in x["state"]]
        f.write(json.dumps({"id": x["id"], "title": x["title"], "statement": x["statement"],
            "quantifier": {"over": x["over"], "text": x["qtext"]}, "why_tests_cant": x["why"], "anchors": a}) + "\n")
        assert len(x["title"]) <= 80, x["title"]
checks = [{"property": x["id"], "quick_cmd": f"./check.py {x['id']}", "thorough_cmd": f"./check.py {x['id']} --tier thorough",
           "evidence_file": f"evidence/{x['id']}.json", "technique": x["tech"], "level": "exploration", "level_note": x["note"]}
          for x in P if x["id"] in PROG]
missing = set(PROG) - {x["id"] for x in P}
assert not missing, missing
m = {"version": 1, "setup_cmd": "./check.py --setup",
     "hooks": {"guard": "ragu_verif", "enable": "RUSTFLAGS='--cfg ragu_verif' (set by check.py)", "source_commits": HOOK_COMMITS},
     "checks": checks, "not_applicable": json.load(open(f"{V}/tools/not_applicable.json")) if os.path.exists(f"{V}/tools/not_applicable.json") else []}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks")
