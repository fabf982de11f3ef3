"""Workspace generation, building, running, merging."""
import itertools, json, os, re, shutil, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
JOBS = min(8, os.cpu_count() or 8)


class EngineError(Exception):
    """Something that is no verdict: the check ends with exit code 2."""


class Violation(Exception):
    def __init__(self, records):
        self.records = records


PROFILE = """
[profile.mc]
inherits = "release"
opt-level = 1
debug = false
strip = false
incremental = false
overflow-checks = true
debug-assertions = true
codegen-units = 4
panic = "unwind"
[profile.mc.package.mc]
opt-level = 3
codegen-units = 16
[profile.mc.build-override]
opt-level = 0
codegen-units = 16
[profile.mclight]
inherits = "mc"
opt-level = 0
codegen-units = 1
[profile.mclight.package.mc]
opt-level = 3
[profile.mcdebug]
inherits = "dev"
debug = false
incremental = false
[profile.mcdebug.package.mc]
opt-level = 3
[profile.mcopt]
inherits = "release"
debug = false
incremental = false
opt-level = 3
overflow-checks = true
codegen-units = 16
[profile.mcopt.build-override]
opt-level = 0
[profile.mcrelease]
inherits = "release"
debug = false
incremental = false
opt-level = 3
codegen-units = 16
"""


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path):
        with open(path) as f:
            if f.read() == text:
                return
    with open(path, "w") as f:
        f.write(text)


def run_group(cmd, timeout, **kw):
    """like subprocess.run with captured output, but a timeout ends every process it started; None then"""
    p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True, **kw)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return None
    return subprocess.CompletedProcess(cmd, p.returncode, out, err)


class Workspace:
    def __init__(self, name, features=("std",), default_features=False, mc=True, profile="mc", target=None):
        self.root = os.path.join(BUILD, name)
        if os.path.isdir(self.root):
            shutil.rmtree(self.root)
        self.members, self.owners = [], {}
        self.features, self.default_features, self.mc, self.profile = list(features), default_features, mc, profile
        self.target = target or os.path.join(BUILD, "target")
        self.extra_deps = ""
        self.cap_lints = True
        self.lean = False
        self.crate_header = ""
        self.jobs = JOBS
        self.env = {}

    def add(self, name, src, owner=(), extra_deps="", lib=False):
        d = os.path.join(self.root, name)
        dep = 'packed_struct = { path = "%s/packed_struct", default-features = %s, features = [%s] }\n' % (
            REPO, "true" if self.default_features else "false", ", ".join('"%s"' % f for f in self.features))
        if self.mc:
            dep += 'mc = { path = "../mc" }\n'
        write(os.path.join(d, "Cargo.toml"), '[package]\nname = "%s"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\n%s%s%s' % (name, dep, self.extra_deps, extra_deps))
        write(os.path.join(d, "src", "lib.rs" if lib else "main.rs"), src)
        self.members.append(name)
        self.owners[name] = owner

    def build(self, args=("build",), timeout=700, keep_going=True):
        """returns a list of (package, file, line, message) of errors in the members"""
        if self.mc:
            # the harness library, compiled from /verif/mc against the tree under test
            write(os.path.join(self.root, "mc", "Cargo.toml"), '[package]\nname = "mc"\nversion = "0.1.0"\nedition = "2021"\n[lib]\npath = "%s/mc/src/lib.rs"\n[dependencies]\npacked_struct = { path = "%s/packed_struct", default-features = false, features = [%s] }\n[features]\ndefault = [%s]\nlean = []\n' % (
                VERIF, REPO, ", ".join('"%s"' % f for f in self.features), '"lean"' if self.lean else ""))
            self.members.append("mc")
        write(os.path.join(self.root, "Cargo.toml"), '[workspace]\nresolver = "2"\nmembers = [%s]\n%s' % (", ".join('"%s"' % m for m in self.members), PROFILE if self.mc else re.sub(r"\[profile\.\w+\.package\.mc\]\n(opt-level|codegen-units) = \d+\n(codegen-units = 16\n)?", "", PROFILE)))
        # the dependency versions the repository itself is built with
        lock = os.path.join(REPO, "Cargo.lock")
        if os.path.exists(lock):
            shutil.copy(lock, os.path.join(self.root, "Cargo.lock"))
        env = dict(os.environ, CARGO_TARGET_DIR=self.target, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", **self.env)
        env["RUSTFLAGS"] = ("--cap-lints allow " if self.cap_lints else "-Awarnings ") + env.get("RUSTFLAGS_EXTRA", "")
        cmd = ["cargo", *args, "--offline", "--profile", self.profile, "--message-format=json", "-j", str(self.jobs)] + (["--keep-going"] if keep_going else [])
        p = run_group(cmd, timeout, cwd=self.root, env=env)
        if p is None:
            raise EngineError("cargo build timed out")
        errs, foreign = [], []
        for line in p.stdout.decode(errors="replace").splitlines():
            if not line.startswith("{"):
                continue
            m = json.loads(line)
            if m.get("reason") != "compiler-message" or m["message"]["level"] not in ("error", "error: internal compiler error"):
                continue
            pkg = m["target"]["name"]
            msg = m["message"]
            if msg["message"].startswith("aborting due to"):
                continue
            spans = [s for s in msg["spans"] if s["is_primary"]] or msg["spans"]
            line_no = None
            fname = None
            for s in spans:
                while s is not None:
                    fname, line_no = s["file_name"], s["line_start"]
                    e = s.get("expansion")
                    s = e["span"] if e else None
            if pkg in self.members and pkg != "mc":
                errs.append((pkg, fname, line_no, msg["message"], msg.get("rendered") or ""))
            else:
                foreign.append(msg.get("rendered") or msg["message"])
        if p.returncode != 0 and not errs:
            raise EngineError("cargo failed outside the generated code:\n" + "\n".join(foreign)[:4000] + p.stderr.decode(errors="replace")[-4000:])
        if foreign:
            raise EngineError("the crate or the harness does not build:\n" + "\n".join(foreign)[:6000])
        return errs

    def owner_of(self, pkg, line):
        for a, b, who in self.owners.get(pkg, ()):
            if line is not None and a <= line <= b:
                return who
        return None

    def bin(self, name):
        d = {"mc": "mc", "mclight": "mclight", "mcdebug": "mcdebug", "mcrelease": "mcrelease", "mcopt": "mcopt", "dev": "debug"}[self.profile]
        return os.path.join(self.target, d, name)


RUNS = itertools.count()


def run_bins(jobs, timeout=600, workers=JOBS):
    """jobs: list of (binary, args, tag). Each writes its JSON report to MC_OUT. Returns list of (tag, report)."""
    outdir = os.path.join(BUILD, "out")
    os.makedirs(outdir, exist_ok=True)

    def one(job):
        b, args, tag = job
        i = next(RUNS)
        out = os.path.join(outdir, "%d-%d.json" % (os.getpid(), i))
        if os.path.exists(out):
            os.remove(out)
        env = dict(os.environ, MC_OUT=out, RUST_BACKTRACE="0")
        p = run_group(["bash", "-c", "ulimit -v 12000000; exec \"$@\"", "x", b] + args, timeout, env=env)
        if p is None:
            return tag, None, "timed out after %d s" % timeout
        if not os.path.exists(out) and p.returncode != -9 and p.returncode != 137:
            # nothing in the exploration ends the process: a crash is the outcome of the code under test
            return tag, dict(cases=1, states=1, transitions=1, traces=1, violations=1, distinct_outcomes=1, counters={}, samples=[], records=[dict(
                case="%s %s" % (os.path.basename(b), " ".join(args[:1])), mode="crash", input="the exploration", expected="runs to its end", got="ended with %d: %s" % (p.returncode, p.stderr.decode(errors="replace")[-2000:]))]), None
        if not os.path.exists(out):
            return tag, None, "ended with %d and no report: %s" % (p.returncode, p.stderr.decode(errors="replace")[-2000:])
        with open(out) as f:
            r = json.load(f)
        os.remove(out)
        return tag, r, None

    with ThreadPoolExecutor(workers) as ex:
        res = list(ex.map(one, jobs))
    bad = [(t, e) for t, _, e in res if e]
    if bad and not any(r and r["violations"] for _, r, _ in res):
        raise EngineError("; ".join("%s %s" % x for x in bad))
    return [(t, r) for t, r, e in res if not e]


class Result:
    """Accumulates coverage over the parts of a check."""

    def __init__(self):
        self.states = self.transitions = self.traces = self.cases = self.outcomes = 0
        self.records, self.samples, self.counters, self.notes = [], [], {}, {}
        self.nviol = 0

    def merge(self, r, context=None):
        self.states += r["states"]
        self.transitions += r["transitions"]
        self.traces += r["traces"]
        self.cases += r["cases"]
        self.outcomes += r["distinct_outcomes"]
        self.nviol += r["violations"]
        for k, v in r["counters"].items():
            self.counters[k] = self.counters.get(k, 0) + v
        for x in r["records"]:
            x["context"] = context
            self.records.append(x)
        self.samples += r["samples"][:2]

    def absorb(self, o):
        for k in ("states", "transitions", "traces", "cases", "outcomes", "nviol"):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        self.records += o.records
        self.samples += o.samples[:1]
        for k, v in o.counters.items():
            self.counters[k] = self.counters.get(k, 0) + v
        for k, v in o.notes.items():
            self.notes.setdefault(k, {}).update(v)

    def fail(self, case, mode, inp, expected, got, **kw):
        self.nviol += 1
        self.records.append(dict(case=case, mode=mode, input=inp, expected=expected, got=got, **kw))


def split(structs, n):
    """contiguous chunks of similar weight"""
    w = [3 + sum((f.count or 1) for f in s.fields) for s in structs]
    total = sum(w)
    n = max(1, min(n, len(structs)))
    chunks, cur, acc = [], [], 0
    for s, x in zip(structs, w):
        cur.append(s)
        acc += x
        if acc >= total * (len(chunks) + 1) / n and len(chunks) < n - 1:
            chunks.append(cur)
            cur = []
    if cur:
        chunks.append(cur)
    return chunks


def codec(res, name, structs, modes, tier, show=False, slices=False, shards=16, timeout=600, setup=None, label="", workers=JOBS):
    """Explore derived structures against the reference model."""
    from layout import shard_source
    names = set()
    for s in structs:
        assert s.name not in names, s.name
        names.add(s.name)
    ws = setup(name) if setup else Workspace(name, profile="mc")
    chunks = split(structs, shards)
    for i, c in enumerate(chunks):
        src, spec, owner = shard_source(c, show, slices, ws.crate_header)
        ws.add("%s_%02d" % (name, i), src, owner)
        write(os.path.join(ws.root, "%s_%02d" % (name, i), "spec.txt"), spec)
    t = time.time()
    errs = ws.build()
    res.notes.setdefault("build_s", {})[name] = round(time.time() - t, 1)
    byname = {s.name: s for s in structs}
    if errs:
        seen = {}
        for pkg, f, line, msg, rendered in errs:
            who = ws.owner_of(pkg, line)
            seen.setdefault(who, (msg, rendered))
        if set(seen) == {None} and not any(e[1] and e[2] for e in errs):
            raise EngineError("generated code does not compile for a reason that belongs to no layout: " + errs[0][4])
        for who, (msg, rendered) in seen.items():
            if who is None:
                # what all the layouts have in common: the use of the documented interface
                res.fail(label + name, "compile", "well-formed user code", "compiles", rendered or msg)
            else:
                res.fail(label + who, "compile", "a well-formed layout", "compiles", rendered or msg, context=dict(source=src_of(byname[who])))
        return res
    t = time.time()
    jobs = [(ws.bin("%s_%02d" % (name, i)), [",".join(modes), os.path.join(ws.root, "%s_%02d" % (name, i), "spec.txt"), tier], i) for i in range(len(chunks))]
    for tag, r in run_bins(jobs, timeout, workers):
        res.merge(r)
        for rec in r["records"]:
            s = byname.get(rec["case"])
            rec["context"] = dict(source=src_of(s), spec=s.spec(), glue=glue_of(s, show), case_expr=s.case(show, slices)) if s else None
            if label:
                rec["case"] = label + rec["case"]
                rec["context"] = dict(source=src_of(s)) if s else None
    res.notes.setdefault("run_s", {})[name] = round(time.time() - t, 1)
    res.notes.setdefault("layouts", {})[name] = len(structs)
    return res


def src_of(s):
    from layout import Struct
    return "".join(d.source() for d in s.deps()) + s.source()


def glue_of(s, show):
    from layout import Struct
    return "".join((d.glue(show=False) if isinstance(d, Struct) else d.glue()) for d in s.deps()) + s.glue(show)


def engine_src(name, **subst):
    with open(os.path.join(VERIF, "mc", "engines", name)) as f:
        t = f.read()
    for k, v in subst.items():
        assert "/*%s*/" % k in t, k
        t = t.replace("/*%s*/" % k, v)
    return "#![allow(unused, non_camel_case_types, non_snake_case)]\n" + t


def program(res, name, src, arglists, features=("std",), timeout=700, extra_deps="", mc=True, profile="mc", default_features=False, fail=None):
    """Build one handwritten engine against the tree under test and run it once per argument list."""
    ws = Workspace(name, features=features, mc=mc, profile=profile, default_features=default_features)
    srcs = src if isinstance(src, list) else [src]
    for i, s in enumerate(srcs):
        ws.add("%s_main%d" % (name, i), s, extra_deps=extra_deps)
    t = time.time()
    errs = ws.build()
    res.notes.setdefault("build_s", {})[name] = round(time.time() - t, 1)
    if errs:
        rejected = [e for e in errs if e[1] and e[2]]
        if rejected:
            # well-formed user code, which uses the documented interface alone, that this tree rejects
            res.fail(fail or name, "compile", "well-formed user code", "compiles", rejected[0][4] or rejected[0][3])
            return
        raise EngineError("the engine %s does not compile: %s" % (name, errs[0][4]))
    t = time.time()
    for tag, r in run_bins([(ws.bin("%s_main%d" % (name, k)), a, (k, i)) for k in range(len(srcs)) for i, a in enumerate(arglists)], timeout):
        res.merge(r)
    res.notes.setdefault("run_s", {})[name] = round(time.time() - t, 1)


def self_check():
    """setup: the toolchain and the vendored dependencies are there and the harness builds"""
    ws = Workspace("setup")
    ws.add("setup", "fn main() { println!(\"{}\", mc::MARK) }\n")
    ws.build()
    return 0


def replay(path):
    """run one recorded violation again, in a workspace that holds nothing else"""
    with open(path) as f:
        d = json.load(f)
    bad = 0
    for r in d["records"]:
        c = r.get("context") or {}
        print("--", r["case"], r["mode"], r["input"])
        if c.get("source"):
            print(c["source"])
        if "case_expr" not in c:
            print("   expected %s\n   got      %s\n   (run `python3 check.py %s` to repeat it)" % (r["expected"], r["got"], d["property"]))
            continue
        from layout import PRELUDE
        ws = Workspace("replay_ws")
        ws.add("replay_one", PRELUDE + c["source"] + c["glue"] + "static CASES: &[mc::Case] = &[%s];\nfn main() { mc::codec::run(CASES) }\n" % c["case_expr"])
        write(os.path.join(ws.root, "spec.txt"), c["spec"])
        errs = ws.build()
        if errs:
            print("does not compile:", errs[0][4])
            bad = 1
            continue
        got = []
        for _ in range(2):
            (_, rep), = run_bins([(ws.bin("replay_one"), [r["mode"], os.path.join(ws.root, "spec.txt"), d["tier"], r["case"]] + ([r["input"]] if r["mode"] in ("pack", "roundtrip", "unpack", "repack", "total", "show") else []), 0)])
            got.append([(x["input"], x["got"]) for x in rep["records"]])
            last = rep
        if got[0] != got[1]:
            raise EngineError("the replay is not deterministic")
        for x in last["records"][:1]:
            print("   expected %s\n   got      %s" % (x["expected"], x["got"]))
            bad = 1
        if not last["records"]:
            print("   does not fail on this tree")
    return bad
