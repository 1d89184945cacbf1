#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design/*.md, the table of properties and the last evidence."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, tech, note, hook=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, why=why, files=files, tech=tech, note=note, qtext=qtext))
exec(open(f"{V}/tools/props_table.py").read())
o = [open(f"{V}/tools/design/head.md").read().rstrip() + "\n"]
for x in P:
    if not os.path.exists(f"{V}/evidence/{x['id']}.json"):
        o.append(f"### {x['id']} {x['title']}\n\n{x['note']}\n\n*Ranges over*: {x['qtext']}. *Beyond the tests*: {x['why']}\n")
        continue
    e = json.load(open(f"{V}/evidence/{x['id']}.json"))
    c = e["coverage"]
    names = list(c["sub_checks"])
    rule = c["rule"].split("non-trivial per sub-check. ")
    rule = " ".join(r for r in rule if r and not r.startswith("A case is one seeded"))
    rule = rule.replace("A case is one seeded choice sequence; distinct = distinct choice sequences; ", "; ")
    o.append(f"### {x['id']} {x['title']}\n\n{x['note']}\n\n*Ranges over*: {x['qtext']}. *Beyond the tests*: {x['why']}\n")
    # split the rules at the names of the sub-checks
    pos = []
    i = 0
    for n in names:
        m = re.search(r"(?:^|[;.] |\s)" + re.escape(n) + ": ", rule[i:])
        if m:
            pos.append((i + m.start(), i + m.end(), n)); i += m.end()
    for k, (a, b, n) in enumerate(pos):
        end = pos[k + 1][0] if k + 1 < len(pos) else len(rule)
        s = c["sub_checks"][n]
        o.append(f"- `{n}` ({s['evaluations']}{', exhaustive' if s['exhaustive'] else ''}): {rule[b:end].strip(' ;|')}")
    o.append("")
    if e.get("assumptions"):
        o.append("Assumes: " + "; ".join(dict.fromkeys(a.rstrip(".") for a in e["assumptions"])) + ".\n")
    o.append(f"Cost (quick, 8 cores): {e['wall_s']:.0f} s.\n")
for f in sorted(os.listdir(f"{V}/tools/design")):
    if f != "head.md":
        o.append(open(f"{V}/tools/design/{f}").read().rstrip() + "\n")
rows = []
for d in sorted(os.listdir(f"{V}/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    rows.append(f"| `{d}` | {m['property']} | {m['needs']} | {m['property']} |")
o = [x.replace("@SEEDS@", "\n".join(rows)) for x in o]
open(f"{V}/DESIGN.md", "w").write("\n".join(o))
