#!/usr/bin/env python3
"""check.py ID            run the check of property ID (tier and seed from VERIF_TIER, VERIF_SEED)
check.py ID --replay F  run the saved case F again
check.py --setup        build every harness program
Exit 0: held on everything explored; 1: violation (VIOLATION line printed); 2: the check could not run."""
import hashlib, json, os, re, resource, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = os.path.join(VERIF, "target")
HARNESS = os.path.join(VERIF, "harness")

# property -> harness programs that decide it (each program knows its own sub-checks)
PROPS = json.load(open(os.path.join(VERIF, "programs.json")))
# multiplies a program's quick case counts
SCALE = {"h_part": 20, "h_arith": 10, "h_seq": 10, "h_pasta": 5, "h_core": 20, "h_prim": 20, "h_circ": 150, "h_circ_mc": 60}
# programs that include files of a crate by path, or compile against it at run time
INCLUDES = {"h_seq": ["ragu_arithmetic"], "h_part": ["ragu_core", "ragu_arithmetic", "ragu_macros"]}
CRATES = sorted(d for d in os.listdir(f"{REPO}/crates") if os.path.isdir(f"{REPO}/crates/{d}"))


def env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN="1.90.0", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=TARGET,
             RUSTFLAGS="--cfg ragu_verif", CARGO_TERM_COLOR="never")
    for k in ("CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    return e


def limit_memory():
    # a runaway allocation then aborts the program (a crash, with a replay) instead of
    # being ended from outside without a word; ordinary runs use less than a gigabyte
    resource.setrlimit(resource.RLIMIT_AS, (16 << 30, 16 << 30))


def tree_hash(d):
    h = hashlib.sha256()
    for root, dirs, files in os.walk(d):
        dirs[:] = sorted(x for x in dirs if x not in ("target", ".git"))
        for f in sorted(files):
            p = os.path.join(root, f)
            h.update(os.path.relpath(p, d).encode() + b"\0")
            try:
                with open(p, "rb") as fh:
                    h.update(fh.read())
            except OSError:
                pass
            h.update(b"\0")
    return h.hexdigest()


def freshen():
    """Cargo trusts timestamps; content hashes decide here what is out of date."""
    os.makedirs(TARGET, exist_ok=True)
    stamp_file = os.path.join(TARGET, "repo-stamps.json")
    try:
        old = json.load(open(stamp_file))
    except (OSError, ValueError):
        old = {}
    new = {c: tree_hash(f"{REPO}/crates/{c}") for c in CRATES}
    new["ragu"] = tree_hash(f"{REPO}/src")
    new["manifest"] = hashlib.sha256(open(f"{REPO}/Cargo.toml", "rb").read()).hexdigest()
    changed = [c for c in new if old.get(c) != new[c]]
    if "manifest" in changed:
        changed = list(new)
    fp = os.path.join(TARGET, "debug", ".fingerprint")
    names = set(changed)
    for prog, crates in INCLUDES.items():
        if names & set(crates):
            names.add(prog)
    if names and os.path.isdir(fp):
        for d in os.listdir(fp):
            if d.rsplit("-", 1)[0] in names:
                shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    return stamp_file, new, bool(changed)


def build(progs):
    stamp_file, new, changed = freshen()
    if changed and os.path.exists(stamp_file):
        os.remove(stamp_file)
    # one at a time: programs built together would share their features
    for p in progs:
        cmd = ["cargo", "build", "--offline", "-q", "-p", p]
        if p == "h_macros":
            cmd += ["-p", "msup", "-p", "msup_ragu", "--message-format=json-render-diagnostics"]
        r = subprocess.run(cmd, cwd=HARNESS, env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if p == "h_macros":
            macros_out = r.stdout
        if r.returncode:
            break
    if r.returncode == 0 and "h_macros" in progs:
        libs = {}
        for line in macros_out.splitlines():
            if '"reason":"compiler-artifact"' in line:
                m = json.loads(line)
                for f in m["filenames"]:
                    if f.endswith((".rlib", ".so")):
                        libs[m["target"]["name"]] = f
        with open(os.path.join(TARGET, "externs.txt"), "w") as f:
            f.writelines(f"{k} {v}\n" for k, v in libs.items())
    if r.returncode == 0:
        # programs not built now still have removed fingerprints, so the new hashes hold for all
        json.dump(new, open(stamp_file, "w"))
    return r.returncode, r.stderr


def violation(pid, rdir, name, body):
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, f"{pid}.{name}.json")
    json.dump({"property": pid, **body}, open(path, "w"), indent=1)
    print(f"VIOLATION property={pid} replay={path}")
    return path


def journal_case(rdir, pid):
    best = []
    if os.path.isdir(rdir):
        for f in sorted(os.listdir(rdir)):
            if f.startswith(pid + ".journal."):
                try:
                    t = open(os.path.join(rdir, f)).read().split()
                    best.append((t[0], int(t[1])))
                except (OSError, IndexError, ValueError):
                    pass
    return best


def clear_journals(rdir, pid):
    if os.path.isdir(rdir):
        for f in os.listdir(rdir):
            if f.startswith(pid + "."):
                os.remove(os.path.join(rdir, f))


def merge(parts, pid, tier, seed, t0, out):
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": 0, "distinct_nontrivial": 0, "distinct_cases": 0, "exhaustive": True,
                       "stopped_by_time_cap": False, "rule": "", "samples": [], "sub_checks": {}},
          "assumptions": [], "wall_s": 0.0, "violations": 0}
    c = ev["coverage"]
    for p in parts:
        d = json.load(open(p))
        q = d["coverage"]
        for k in ("evaluations", "distinct_nontrivial", "distinct_cases"):
            c[k] += q[k]
        c["exhaustive"] &= q["exhaustive"]
        c["stopped_by_time_cap"] |= q["stopped_by_time_cap"]
        c["rule"] += (" " if c["rule"] else "") + q["rule"]
        c["samples"] += q["samples"]
        for k, v in q["sub_checks"].items():
            # the same sub-check in another build
            c["sub_checks"][k if k not in c["sub_checks"] else f"{k} (another build)"] = v
        ev["assumptions"] += d["assumptions"]
        ev["violations"] += d["violations"]
    ev["wall_s"] = round(time.time() - t0, 2)
    os.makedirs(os.path.dirname(out), exist_ok=True)
    json.dump(ev, open(out, "w"), indent=1)


def macro_blame(out):
    """The libraries no longer compile although the macro crate does. Is it the expansions'
    fault? They are, if the same libraries do compile with the reference copy of the macros."""
    if "could not compile `ragu_macros`" in out:
        return False
    top = os.path.join(TARGET, "blame")
    shutil.rmtree(top, ignore_errors=True)
    try:
        shutil.copytree(REPO, f"{top}/repo", ignore=shutil.ignore_patterns("target", ".git", "book"))
        shutil.rmtree(f"{top}/repo/crates/ragu_macros/src")
        shutil.copytree(f"{VERIF}/ref/ragu_macros/src", f"{top}/repo/crates/ragu_macros/src")
        os.makedirs(f"{top}/ws/src")
        open(f"{top}/ws/src/lib.rs", "w").write("")
        shutil.copy(f"{HARNESS}/Cargo.lock", f"{top}/ws/Cargo.lock")
        patch = "".join(f'{n} = {{ path = "{VERIF}/shims/{n}" }}\n' for n in ("ff", "group", "pasta_curves", "blake2b_simd"))
        open(f"{top}/ws/Cargo.toml", "w").write(
            '[workspace]\n[package]\nname = "blame"\nversion = "0.0.0"\nedition = "2024"\n[dependencies]\n'
            f'ragu_primitives = {{ path = "{top}/repo/crates/ragu_primitives" }}\n[patch.crates-io]\n' + patch)
        e = env()
        e["CARGO_TARGET_DIR"] = f"{top}/target"
        r = subprocess.run(["cargo", "check", "--offline", "-q"], cwd=f"{top}/ws", env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            print("(the libraries do not compile with the reference macros either)\n" + r.stdout[-1500:])
        return r.returncode == 0
    finally:
        shutil.rmtree(top, ignore_errors=True)


def main():
    if sys.argv[1] == "--setup":
        for progs in sorted({tuple(v) for v in PROPS.values()}):
            rc, out = build(progs)
            sys.stdout.write(out[-4000:])
            if rc:
                return 2
        return 0
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    rdir = os.path.join(VERIF, "replay")
    out = os.path.join(VERIF, "evidence", f"{pid}.json")
    progs = PROPS[pid]
    t0 = time.time()
    rc, log = build(progs)
    if rc != 0:
        errs = "\n".join(log.splitlines()[-60:])
        if (pid.startswith("M") or pid == "C02") and macro_blame(log):
            print("the library no longer compiles with the macros' expansions:\n" + errs)
            violation(pid, rdir, "expansion", {"sub": "library_expansions", "message": errs[-3000:]})
            return 1
        print("BUILD FAILED\n" + errs)
        return 2
    e = env()
    e["RUST_BACKTRACE"] = "0"
    if "--replay" in sys.argv:
        f = sys.argv[sys.argv.index("--replay") + 1]
        prog = json.load(open(f)).get("program", progs[0])
        return subprocess.run([os.path.join(TARGET, "debug", prog), pid, "--replay", f], env=e, cwd=VERIF).returncode
    clear_journals(rdir, pid)
    os.makedirs(rdir, exist_ok=True)
    parts, bad, err = [], False, False
    # where one program leaves results for the next to compare its own with
    peer = os.path.join(TARGET, f"peer-{os.getpid()}")
    shutil.rmtree(peer, ignore_errors=True)
    e["V_PEER"] = peer
    for prog in progs:
        part = os.path.join(TARGET, f"evidence-{pid}-{prog}.json")
        if os.path.exists(part):
            os.remove(part)
        cmd = [os.path.join(TARGET, "debug", prog), pid, "--seed", str(seed), "--tier", tier,
               "--out", part, "--replay-dir", rdir]
        if tier == "quick" and prog in SCALE:
            cmd += ["--scale", str(SCALE[prog])]
        if "--max-secs" in sys.argv:
            cmd += ["--max-secs", sys.argv[sys.argv.index("--max-secs") + 1]]
        p = subprocess.Popen(cmd, env=e, cwd=VERIF, preexec_fn=limit_memory)
        rc = p.wait()
        if rc == 1:
            bad = True
        elif rc < 0 and -rc in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE):
            cases = journal_case(rdir, pid)
            violation(pid, rdir, "crash", {"program": prog, "sub": cases[0][0] if cases else "?",
                      "index": cases[0][1] if cases else 0, "seed": seed, "candidates": cases,
                      "message": f"the program under test died with signal {-rc}"})
            bad = True
            continue
        elif rc != 0:
            print(f"{prog} ended with status {rc}")
            err = True
            continue
        if os.path.exists(part):
            parts.append(part)
    shutil.rmtree(peer, ignore_errors=True)
    merge(parts, pid, tier, seed, t0, out)
    if bad:
        return 1
    return 2 if err else 0


if __name__ == "__main__":
    sys.exit(main())
