#!/usr/bin/env python3
"""refac.py IDS LIST.py... [-- name...]: apply all edits (which change no behaviour) of the lists at
once to /repo, run the checks IDS (comma separated, or all), revert. Every check has to stay quiet."""
import json, subprocess, sys, time
a = sys.argv[1:]
sel = []
if "--" in a: sel = a[a.index("--") + 1:]; a = a[:a.index("--")]
ids = list(json.load(open("/verif/programs.json"))) if a[0] == "all" else a[0].split(",")
saved = {}
try:
    for l in a[1:]:
        exec(open(l).read())
        for m in M:
            name, file, old, new = m[:4]
            if sel and name not in sel: continue
            p = "/repo/" + file
            s = open(p).read()
            saved.setdefault(p, s)
            if old not in s:  # comment lines in between
                s = "".join(l for l in s.splitlines(True) if not l.lstrip().startswith("// "))
            if old not in s: print(f"?? {name}: pattern not found"); continue
            k = m[4] if len(m) > 4 else 0
            parts = s.split(old)
            open(p, "w").write(old.join(parts[:k+1]) + new + old.join(parts[k+1:]))
            for file, old, new in m[5] if len(m) > 5 else []:  # what goes with it
                p = "/repo/" + file
                s = open(p).read()
                saved.setdefault(p, s)
                if old not in s: print(f"?? {name}: second pattern not found")
                open(p, "w").write(s.replace(old, new, 1))
    for i in ids:
        t0 = time.time()
        r = subprocess.run(["./check.py", i], cwd="/verif", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print(f"{'quiet' if r.returncode == 0 else 'ALARM ' + str(r.returncode)} {i} {time.time()-t0:.1f}s", flush=True)
        if r.returncode: print("\n".join(l[:400] for l in r.stdout.splitlines()[-25:]), flush=True)
        if r.returncode == 2: break
finally:
    for p, s in saved.items(): open(p, "w").write(s)
