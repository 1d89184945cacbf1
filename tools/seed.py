#!/usr/bin/env python3
"""seed.py SPEC.py [id...]: writes /verif/seeded/<id>/ from a spec: a list S of dicts
{id, property, tail (end of demo.sh, if not plain cargo run), edits: [(file, old, new[, occurrence])], needs, breaks, main (Rust program), deps: [crate...], features: {crate: [..]}}
and confirms it: demo passes on /repo, fails with the patch in a scratch copy."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = []
exec(open(sys.argv[1]).read())
sel = sys.argv[2:]
DEMO = '''#!/bin/bash
# Builds main.rs against the crates of the repository in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
cp -r "$here/files/." "$t/" && sed "s#@REPO@#$repo#g" "$t/Cargo.toml.in" > "$t/Cargo.toml" && sed -i "s#@REPO@#$repo#g" "$t/src/main.rs" || exit 3
cd "$t" && env -u CARGO_ENCODED_RUSTFLAGS RUSTFLAGS="@FLAGS@" RUSTUP_TOOLCHAIN=1.90.0 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target" cargo run --offline -q
'''
for s in S:
    if sel and s["id"] not in sel: continue
    d = f"{V}/seeded/{s['id']}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(f"{d}/files/src")
    open(f"{d}/files/src/main.rs", "w").write(s["main"])
    feats = s.get("features", {})
    deps = ""
    for c in s["deps"]:
        path = "@REPO@/crates/" + c if c.startswith("ragu_") else None
        if c == "ragu": path = "@REPO@"
        f = f', features = {json.dumps(feats[c])}' if c in feats else ""
        ver = {"ff": "0.14.0-pre.0", "group": "0.14.0-pre.0", "pasta_curves": "0.5.1", "rand": "0.10", "num-bigint": "0.4.6", "maybe-rayon": "0.1.1", "thiserror": "2.0.12"}.get(c)
        deps += f'{c} = {{ path = "{path}"{f} }}\n' if path else f'{c} = "{ver}"\n'
    extra = s.get("cargo", "")
    open(f"{d}/files/Cargo.toml.in", "w").write(
        '[package]\nname = "demo"\nversion = "0.0.0"\nedition = "2024"\n[workspace]\n[dependencies]\n' + deps +
        "[patch.crates-io]\n" + "".join(f'{n} = {{ path = "shims/{n}" }}\n' for n in ("ff", "group", "pasta_curves", "blake2b_simd")) +
        "[profile.dev]\nopt-level = 1\ndebug = 0\nincremental = false\n" + extra)
    shutil.copytree(f"{V}/shims", f"{d}/files/shims", ignore=shutil.ignore_patterns("target", "Cargo.lock"))
    shutil.copy(f"{V}/harness/Cargo.lock", f"{d}/files/Cargo.lock")
    for n, b in s.get("files", {}).items(): open(f"{d}/files/{n}", "w").write(b)
    open(f"{d}/demo.sh", "w").write((DEMO.replace("@FLAGS@", s.get("rustflags", "")) if "tail" not in s else DEMO[:DEMO.index('cd "$t"')] + s["tail"])); os.chmod(f"{d}/demo.sh", 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
    t = tempfile.mkdtemp(prefix="seed")
    try:
        subprocess.run(["cp", "-a", "/repo", f"{t}/repo"], check=True)
        r = f"{t}/repo"
        for e in s["edits"]:
            p = f"{r}/{e[0]}"; x = open(p).read(); k = e[3] if len(e) > 3 else 0
            q = x.split(e[1]); assert len(q) > k + 1, (s["id"], "pattern", e[0], e[1])
            open(p, "w").write(e[1].join(q[:k+1]) + e[2] + e[1].join(q[k+1:]))
        diff = subprocess.run(["git", "-C", r, "diff"], stdout=subprocess.PIPE, text=True, check=True).stdout
        open(f"{d}/patch.diff", "w").write(diff)
        a = subprocess.run([f"{d}/demo.sh"], cwd="/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        b = subprocess.run([f"{d}/demo.sh"], cwd=r, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        ok = a.returncode == 0 and b.returncode != 0
        print(s["id"], "demo clean", a.returncode, "patched", b.returncode, "OK" if ok else "BAD", flush=True)
        print("   ", " | ".join(b.stdout.strip().splitlines()[-3:])[:300])
        if not ok: print(a.stdout[-1500:], b.stdout[-1500:])
    finally:
        shutil.rmtree(t, ignore_errors=True)
