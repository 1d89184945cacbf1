#!/usr/bin/env python3
"""mut.py LIST.py [name...]: each entry (name, file, old, new, ids): apply to /repo, run checks, revert."""
import subprocess, sys, time
M = []
exec(open(sys.argv[1]).read())
sel = sys.argv[2:]
for m in M:
    name, file, old, new, ids = m[:5]
    if sel and not any(s in name for s in sel): continue
    p = "/repo/" + file
    s = open(p).read()
    if s.count(old) < 1:
        print(f"?? {name}: pattern not found"); continue
    k = m[5] if len(m) > 5 else 0
    parts = s.split(old)
    t = old.join(parts[:k+1]) + new + old.join(parts[k+1:])
    if "ORDER" in globals(): ids = sorted(ids, key=lambda i: (ORDER[name.split("_")[0]].index(i) if i in ORDER.get(name.split("_")[0], []) else 99))
    try:
        open(p, "w").write(t)
        for i in ids:
            t0 = time.time()
            r = subprocess.run(["./check.py", i], cwd="/verif", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            v = "CAUGHT" if r.returncode == 1 and f"VIOLATION property={i}" in r.stdout else ("MISSED" if r.returncode == 0 else f"ERROR {r.returncode}")
            line = [l for l in r.stdout.splitlines() if l.strip().startswith("sub=")]
            if v.startswith("ERROR"): line = r.stdout.splitlines()[-25:]
            print(f"{v} {name} {i} {time.time()-t0:.1f}s {(line or [''])[0][:200] if not v.startswith('ERROR') else chr(10).join(line)}", flush=True)
            if "ORDER" in globals() and (v == "CAUGHT" or v.startswith("ERROR")): break
    finally:
        open(p, "w").write(s)
