#!/usr/bin/env python3
"""mutate.py list                : every small change (operator, constant, condition, statement) of the original sources
mutate.py screen OUT [n] [k/m]  : those that build and pass the existing tests, n workers (resumes from OUT)
mutate.py check OUT RES [n]     : runs the checks that look at the changed file until one reports it, n at a time
Scratch copies /tmp/mut<i> (remove them afterwards)."""
import json, os, re, subprocess, sys, shutil, threading, queue, hashlib
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = {"PATH": "/root/.cargo/bin:" + os.environ["PATH"], "HOME": "/root", "RUSTUP_TOOLCHAIN": "stable-x86_64-unknown-linux-gnu", "CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never", "CARGO_PROFILE_DEV_DEBUG": "0", "CARGO_BUILD_JOBS": "2"}
RT = "packed_struct/src/"
CG = "packed_struct_codegen/src/"
FILES = {
    RT + "debug_fmt.rs": "C25 C21 C26", RT + "lib.rs": "C28 C30 C31 C21", RT + "packing.rs": "C21 C25 C09 C18", RT + "primitive_enum.rs": "C16 C13",
    RT + "types_array.rs": "C31 C11 C22", RT + "types_basic.rs": "C31 C22 C18", RT + "types_bits.rs": "C32 C22 C28 C31", RT + "types_generic.rs": "C18 C21 C31 C20",
    RT + "types_num.rs": "C08 C07 C31 C29 C06", RT + "types_reserved.rs": "C10 C29 C31 C22 C25", RT + "types_tuples.rs": "C20 C21", RT + "types_vec.rs": "C19 C21 C27",
    CG + "common.rs": "C28 C30", CG + "lib.rs": "C23 C28 C26", CG + "pack.rs": "C24 C30 C06", CG + "pack_codegen.rs": "C10 C25 C13 C02 C30",
    CG + "pack_codegen_docs.rs": "C26 C25", CG + "pack_parse.rs": "C24 C23 C26 C03 C06", CG + "pack_parse_attributes.rs": "C24 C23 C06 C03", CG + "primitive_enum.rs": "C15 C17 C14",
    CG + "utils.rs": "C10 C24 C23 C25", CG + "utils_syn.rs": "C14 C23 C15 C24"}
OPS = [(r" < ", [" <= ", " > "]), (r" <= ", [" < "]), (r" > ", [" >= "]), (r" >= ", [" > "]), (r" == ", [" != "]), (r" != ", [" == "]), (r" \+ ", [" - ", " * "]), (r" - ", [" + "]), (r" \* ", [" + "]), (r" / ", [" * "]),
       (r" % ", [" / "]), (r" && ", [" || "]), (r" \|\| ", [" && "]), (r"<<", [">>"]), (r">>(?=[^>]*[;)\]])", ["<<"]), (r"\.\.=", [".."]), (r"\.\.(?=[\w(])(?!=)", ["..="]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
       (r" \| ", [" & "]), (r" & ", [" | "]), (r"\|=", ["&=", "="]), (r"&=", ["|="]), (r"\+=", ["-="]), (r"-=", ["+="]), (r"!(?=[\w(])(?<!\w!)", [""]), (r"\bNone\b(?=\s*[,;)}]|$)", []), (r"\.rev\(\)", [""]), (r"\.first\(\)", [".last()"]), (r"\.last\(\)", [".first()"]),
       (r"\bmin\b", ["max"]), (r"\bmax\b", ["min"]), (r"as u8\b", ["as i8 as u8", "as u8 & 0x7F"]), (r"as usize\b", ["as u8 as usize", "as u16 as usize"]), (r"as u(64|32|16)\b", ["as u8 as u\\1"]), (r"\bto_be\b", ["to_le"]), (r"\.to_lowercase\(\)", [".to_string()"]), (r"Msb\b", ["Lsb"]), (r"Lsb\b", ["Msb"]),
       (r"\?;", [".ok();"]), (r"\.is_some\(\)", [".is_none()"]), (r"\.is_none\(\)", [".is_some()"]), (r"\bany\(", ["all("]), (r"\ball\(", ["any("]), (r"\.iter\(\)", [".iter().skip(1)", ".iter().take(5)", ".iter().rev()"]), (r"saturating_sub", ["wrapping_sub"]), (r"\bif (?!let)(.+) \{", ["if !(\\1) {", "if true {", "if false {"]), (r"\belse if (?!let)(.+) \{", ["else if false {"])]


def original_lines(f):
    out = subprocess.run(["git", "blame", "-s", "--root", "HEAD", "--", f], cwd="/repo", stdout=subprocess.PIPE, text=True).stdout.splitlines()
    base = subprocess.run("git rev-list --max-parents=0 HEAD", cwd="/repo", shell=True, stdout=subprocess.PIPE, text=True).stdout.strip()
    return [l.lstrip("^")[:7] == base[:7] for l in out]


def mutants():
    r = []
    for f in FILES:
        text = open("/repo/" + f).read().split("\n")
        orig = original_lines(f)
        intest = False
        for i, l in enumerate(text):
            if "#[cfg(test)]" in l or re.match(r"\s*#\[test\]", l):
                intest = True
            if intest and l.startswith("}") :
                intest = False
                continue
            s = l.strip()
            if intest or not s or s.startswith(("//", "#[", "#!", "use ", "extern crate", "pub use", "mod ", "pub mod")) or i >= len(orig) or not orig[i]:
                continue
            code = l
            seen = set()

            def add(new, what):
                if new != l and new not in seen:
                    seen.add(new)
                    r.append(dict(file=f, line=i, old=l, new=new, what=what))
            for pat, subs in OPS:
                for m in re.finditer(pat, code):
                    for sub in subs:
                        add(code[:m.start()] + m.expand(sub) + code[m.end():], "%s -> %s" % (m.group(0).strip(), m.expand(sub).strip()))
            for m in re.finditer(r"(?<![\w.\"#])(\d+|0x[0-9A-Fa-f]+)(?=(usize|u8|i32|u32)?\b)(?![\w.]*\")", code):
                v = int(m.group(1), 0)
                for nv in (v + 1, v - 1) if v else (1,):
                    add(code[:m.start(1)] + str(nv) + code[m.end(1):], "%s -> %d" % (m.group(1), nv))
            if re.match(r"^\s*[\w.\[\]*]+.*;$", l) and not re.match(r"^\s*(let|return|type|const|pub|fn|mod|static|trait|impl|struct)\b", l) and l.count("(") == l.count(")") and l.count("{") == l.count("}"):
                add(re.match(r"\s*", l).group(0) + "{}", "delete")
    for m in r:
        m["id"] = hashlib.sha1(json.dumps([m["file"], m["line"], m["new"]]).encode()).hexdigest()[:10]
    return r


def work(n, items, fn):
    q = queue.Queue()
    for x in items:
        q.put(x)

    def loop(i):
        while True:
            try:
                x = q.get_nowait()
            except queue.Empty:
                return
            try:
                fn(i, x)
            except Exception as e:
                print("!!", x["id"], repr(e)[:300], flush=True)
    ts = [threading.Thread(target=loop, args=(i,)) for i in range(n)]
    [t.start() for t in ts]
    [t.join() for t in ts]


def copy(i):
    d = "/tmp/mut%d" % i
    if not os.path.isdir(d):
        subprocess.run(["cp", "-a", "/repo", d], check=True)
    return d


def apply(d, m):
    subprocess.run("git checkout -q -f . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", cwd=d, shell=True)
    p = d + "/" + m["file"]
    t = open(p).read().split("\n")
    if t[m["line"]] != m["old"]:
        raise LookupError("line changed")
    t[m["line"]] = m["new"]
    open(p, "w").write("\n".join(t))


def run(cmd, cwd, env=ENV, timeout=400):
    try:
        return subprocess.run(["setsid", "timeout", "-k", "5", str(timeout)] + cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    except Exception as e:
        class P: returncode, stdout = 99, repr(e)
        return P


lock = threading.Lock()


def screen(out, n, part):
    done = set()
    if os.path.exists(out):
        done = {json.loads(l)["id"] for l in open(out)}
    ms = [m for i, m in enumerate(mutants()) if m["id"] not in done and i % part[1] == part[0]]
    print(len(ms), "to screen", flush=True)
    for i in range(n):
        copy(i)

    def one(i, m):
        d = "/tmp/mut%d" % i
        apply(d, m)
        p = run(["cargo", "build", "--offline", "-p", "packed_struct"], d)
        v = "no build"
        if p.returncode == 0:
            v = "survives"
            for c, w in ((["cargo", "test", "--offline", "--workspace"], d), (["cargo", "test", "--offline"], d + "/packed_struct_nostd_tests")):
                p = run(c, w, timeout=60)
                if p.returncode:
                    v = "tests"
                    break
        m["verdict"] = v
        with lock:
            open(out, "a").write(json.dumps(m) + "\n")
    work(n, ms, one)


def check(out, res, n, every):
    done = set()
    if os.path.exists(res):
        done = {json.loads(l)["id"] for l in open(res)}
    ms = [m for m in map(json.loads, open(out)) if m["verdict"] == "survives" and m["id"] not in done]
    print(len(ms), "to check", flush=True)
    for i in range(n):
        copy(i)

    def one(i, m):
        d = "/tmp/mut%d" % i
        try:
            apply(d, m)
        except LookupError:
            return
        env = dict(os.environ, VERIF_REPO=d, VERIF_BUILD="/tmp/mutb%d" % i, VERIF_TIER="quick")
        m["by"], m["quiet"], m["odd"] = [], [], []
        for c in FILES[m["file"]].split():
            p = run(["python3", "/tmp/verif_copy/check.py", c], "/tmp/verif_copy", env, 900)
            (m["by"] if p.returncode == 1 and "VIOLATION" in p.stdout else m["quiet"] if p.returncode == 0 else m["odd"]).append(c)
            if m["by"] and not every:
                break
        with lock:
            open(res, "a").write(json.dumps(m) + "\n")
            print(m["file"].split("/")[-1], m["line"] + 1, m["what"], "by", m["by"], "quiet", m["quiet"], "odd", m["odd"], flush=True)
    work(n, ms, one)


a = sys.argv[1:]
if a[0] == "list":
    ms = mutants()
    for m in ms:
        print(m["file"], m["line"] + 1, m["what"], "|", m["new"].strip())
    print(len(ms))
elif a[0] == "screen":
    k, m = (a[3] if len(a) > 3 else "0/1").split("/")
    screen(a[1], int(a[2]) if len(a) > 2 else 4, (int(k), int(m)))
elif a[0] == "check":
    check(a[1], a[2], int(a[3]) if len(a) > 3 else 1, "every" in a)
