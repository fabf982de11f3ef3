#!/usr/bin/env python3
"""seedtool.py make SPEC.py [id...]  : builds seeded/<id> from a spec, in a scratch copy of /repo
   seedtool.py verify [id...]        : tests, demonstration and the property's own check for planted changes
Scratch: /tmp/seedclean, /tmp/seedrepo, /tmp/seedbuild (removed with 'clean')."""
import json, os, re, shutil, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLEAN, WORK, BUILD = "/tmp/seedclean", "/tmp/seedrepo", "/tmp/seedbuild"
ENV = {"PATH": "/root/.cargo/bin:" + os.environ["PATH"], "HOME": "/root", "RUSTUP_TOOLCHAIN": "stable-x86_64-unknown-linux-gnu", "CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never", "CARGO_PROFILE_DEV_DEBUG": "line-tables-only"}

DEMO_SH = '''#!/bin/bash
# run in the repository's root
here="$(cd "$(dirname "$0")" && pwd)"
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cp Cargo.lock "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
packed_struct = { path = "$PWD/packed_struct"%(features)s }
%(deps)s
[workspace]
T
export CARGO_TARGET_DIR="$d/target" CARGO_NET_OFFLINE=true RUSTFLAGS="-Awarnings"
cd "$d"
%(run)s
'''


def sh(cmd, cwd=None, env=None, timeout=1200):
    return subprocess.run(cmd, cwd=cwd, env=env or ENV, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def fresh():
    for d in (CLEAN, WORK):
        if not os.path.isdir(d):
            sh("cp -a /repo " + d)
        sh("git checkout -q -f . && git clean -fdq && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", cwd=d)


def reset():
    sh("git checkout -q -f . && git clean -fdq", cwd=WORK)


def tests():
    ok = True
    out = ""
    for d in ("", "/packed_struct_nostd_tests"):
        p = sh("cargo test --offline %s --no-fail-fast" % ("" if d else "--workspace"), cwd=WORK + d)
        out += p.stdout
        ok &= p.returncode == 0
    return ok, out


def demo(d, repo):
    # the folder lies elsewhere, without its patch
    t = "/tmp/seeddemo"
    shutil.rmtree(t, ignore_errors=True)
    shutil.copytree(d, t, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    p = sh(["bash", t + "/demo.sh"], cwd=repo)
    shutil.rmtree(t)
    return p


def verify(i, check=True, prop=None):
    d = os.path.join(VERIF, "seeded", i)
    meta = json.load(open(d + "/meta.json"))
    reset()
    p = sh(["git", "apply", "--whitespace=nowarn", d + "/patch.diff"], cwd=WORK)
    if p.returncode:
        return "%s: does not apply: %s" % (i, p.stdout[:300])
    ok, out = tests()
    if not ok:
        return "%s: TESTS FAIL: %s" % (i, re.findall(r"^(?:test .*FAILED|error.*)$", out, re.M)[:5])
    p1, p2 = demo(d, CLEAN), demo(d, WORK)
    if p1.returncode != 0:
        return "%s: DEMO FAILS ON CLEAN: %s" % (i, p1.stdout[-1500:])
    if p2.returncode == 0:
        return "%s: DEMO PASSES WITH PATCH: %s" % (i, p2.stdout[-800:])
    why = [l for l in p2.stdout.splitlines() if "panicked" in l or "error" in l or "left" in l or "right" in l][:3]
    r = "%s: ok, demo: %s" % (i, why)
    if check:
        env = dict(os.environ, VERIF_REPO=WORK, VERIF_BUILD=BUILD, VERIF_TIER="quick", VERIF_SEED="1")
        c = sh([sys.executable, VERIF + "/check.py", prop or meta["property"]], env=env, cwd=VERIF)
        caught = c.returncode == 1 and "VIOLATION property=" in c.stdout
        lines = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
        r += "\n   %s %s exit %d: %s" % ("CAUGHT" if caught else "*** MISSED ***", meta["property"], c.returncode, (lines or c.stdout.strip().splitlines()[-3:] or [""])[0][:400])
    return r


def make(spec, ids):
    ns = {}
    exec(open(spec).read(), ns)
    for s in ns["SEEDS"]:
        if ids and s["id"] not in ids:
            continue
        reset()
        bad = None
        for f, old, new in s["edits"]:
            p = os.path.join(WORK, f)
            t = open(p, newline="").read()
            crlf = "\r\n" in t
            if crlf:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if t.count(old) != 1:
                bad = "%s: %d matches of %r" % (f, t.count(old), old[:80])
                break
            open(p, "w", newline="").write(t.replace(old, new))
        if bad:
            print(s["id"], bad)
            continue
        diff = subprocess.run(["git", "diff"], cwd=WORK, stdout=subprocess.PIPE).stdout
        d = os.path.join(VERIF, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "wb").write(diff)
        open(d + "/demo.rs", "w").write(s["demo"])
        open(d + "/demo.sh", "w").write(DEMO_SH % dict(features=(', features = [%s]' % ", ".join('"%s"' % x for x in s["features"])) if s.get("features") else "", deps=s.get("deps", ""), run=s.get("run", "cargo run -q --offline")))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
        print(verify(s["id"]), flush=True)


fresh()
if sys.argv[1] == "make":
    make(sys.argv[2], sys.argv[3:])
elif sys.argv[1] == "verify":
    for i in sys.argv[2:] or sorted(os.listdir(VERIF + "/seeded")):
        print(verify(i), flush=True)
elif sys.argv[1] == "clean":
    for d in (CLEAN, WORK, BUILD):
        shutil.rmtree(d, ignore_errors=True)
reset() if os.path.isdir(WORK) else None
