#!/usr/bin/env python3
"""automut.py SEED N FILE_REGEX [--ids A,B]: random small edits of the code the properties are anchored in,
one at a time, each followed by the checks of those properties until one reports it. Run on a copy."""
import json, os, random, re, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
seed, n, pat = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
over = sys.argv[sys.argv.index("--ids") + 1].split(",") if "--ids" in sys.argv else None
P = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
by = {}
for p in P:
    for f in p["anchors"]["files"]:
        by.setdefault(f, []).append(p["id"])
files = []
for root, _, fs in os.walk("/repo/crates"):
    if "/target" in root or "/tests" in root or "/benches" in root or "/examples" in root: continue
    for f in fs:
        q = os.path.relpath(os.path.join(root, f), "/repo")
        if q.endswith(".rs") and re.search(pat, q) and not q.endswith(("tests.rs", "verif.rs", "build.rs")): files.append(q)
RULES = [
    (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" / ", " * "), (r" % ", " / "),
    (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "),
    (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "),
    (r" << ", " >> "), (r" >> ", " << "), (r" & ", " | "), (r" \| ", " & "), (r" \^ ", " | "),
    (r" \+= ", " -= "), (r" -= ", " += "), (r" \*= ", " += "),
    (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
    (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"), (r"\b2\b", "1"), (r"\b2\b", "3"), (r"\b([3-9]|[1-9][0-9]+)\b", None),
    (r"\.rev\(\)", ""), (r"\.skip\(1\)", ""), (r"\.\.=", ".."), (r"(?<=\w)\.\.(?=\w)", "..="),
    (r"\.min\(", ".max("), (r"\.max\(", ".min("), (r"\bis_some\b", "is_none"), (r"\bis_none\b", "is_some"),
    (r"\.any\(", ".all("), (r"\.all\(", ".any("), (r"::ZERO\b", "::ONE"), (r"::ONE\b", "::ZERO"),
    (r"\bif !", "if "), (r"\bif (?!let|!)", "if !"), (r"\.left\b", ".right"), (r"\.first\b", ".last"), (r"\.last\(", ".first("),
    (r"\.neg\(\)", ""), (r"\.negate\(", ".clone("), (r"\bmul\(", "add("), (r"\badd\(", "sub("), (r"\bsub\(", "add("),
    (r"\.square\(", ".double("), (r"\.double\(", ".square("), (r"\.filter\(", ".skip_while("), (r"\.zip\(", ".chain("),
    ("STMT", ""), ("SWAP", ""), ("ARGS", ""),
]
def code_spans(s):
    """Lines of code that are not comments, attributes or tests."""
    lines, o, off, test = s.split("\n"), [], 0, False
    for l in lines:
        t = l.strip()
        if re.match(r"#\[(test|cfg\((all\()?test)", l): test = True
        if not test and t and not t.startswith(("//", "#[", "#!", "use ", "pub use", "mod ", "pub mod", "extern", "debug_assert", "assert")):
            c = l.find("//")
            o.append((off, l if c < 0 else l[:c]))
        if test and (l.startswith("}") or l.startswith("use ")): test = False
        off += len(l) + 1
    return o
def candidates(s):
    sp = code_spans(s)
    for i, (off, l) in enumerate(sp):
        for r, w in RULES:
            if r == "STMT":
                t = l.strip()
                if t.endswith(";") and not t.startswith(("let ", "return", "pub ", "type ", "const ", "}", "break", "continue", ".")) and "(" in t or (t.startswith("}") is False and re.match(r"^\*?[\w.\[\]]+ [+\-*]?= .*;$", t)):
                    yield off, off + len(l), "", "del"
            elif r == "SWAP":
                t = l.strip()
                if i + 1 < len(sp) and t.endswith(",") and sp[i + 1][1].strip().endswith(",") and sp[i + 1][0] == off + len(l) + 1 and re.match(r"^[\w.&()*:]+,$", t) and re.match(r"^[\w.&()*:]+,$", sp[i + 1][1].strip()):
                    yield off, sp[i + 1][0] + len(sp[i + 1][1]), sp[i + 1][1] + "\n" + l, "swap"
            elif r == "ARGS":
                for m in re.finditer(r"\(((?:&|&mut )?[\w.]+), ((?:&|&mut )?[\w.]+)\)", l):
                    yield off + m.start(), off + m.end(), f"({m[2]}, {m[1]})", "args"
            else:
                for m in re.finditer(r, l):
                    x = w if w is not None else str(int(m[0]) + 1)
                    yield off + m.start(), off + m.end(), x, r
rng = random.Random(seed)
todo = []
for f in sorted(files):
    s = open("/repo/" + f).read()
    for c in candidates(s): todo.append((f,) + c)
print(len(todo), "candidates in", len(files), "files", flush=True)
# files weigh by the root of their number of candidates
cnt = {}
for t in todo: cnt[t[0]] = cnt.get(t[0], 0) + 1
w = [cnt[t[0]] ** -0.5 for t in todo]
done = set()
for _ in range(n * 3):
    if len(done) >= n: break
    t = rng.choices(todo, w)[0]
    if t in done: continue
    done.add(t)
    f, a, b, x, r = t
    ids = over or by.get(f)
    if not ids: print("-- no property", f); continue
    p = "/repo/" + f
    s = open(p).read()
    line = s.count("\n", 0, a) + 1
    m = s[:a] + x + s[b:]
    old, new = s.split("\n")[line - 1].strip(), m.split("\n")[line - 1].strip()
    if r == "del": new = "(deleted)"
    try:
        open(p, "w").write(m)
        res = []
        for i in ids:
            t0 = time.time()
            try:
                q = subprocess.Popen(["./check.py", i], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
                out = q.communicate(timeout=600)[0]
                v = "CAUGHT" if q.returncode == 1 and f"VIOLATION property={i}" in out else ("MISSED" if q.returncode == 0 else ("NOBUILD" if "BUILD FAILED" in out else f"ERROR{q.returncode}"))
            except subprocess.TimeoutExpired:
                v = "TIMEOUT"; os.killpg(q.pid, 9); q.communicate()
            res.append(f"{i}:{v}:{time.time()-t0:.0f}")
            if v != "MISSED": break
        print(f"{v} {f}:{line} | {old[:110]} | {new[:110]} | {' '.join(res)}", flush=True)
    finally:
        open(p, "w").write(s)
