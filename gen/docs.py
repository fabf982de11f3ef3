"""C26: the documentation rustdoc extracts from a derived structure against the layout it was generated from."""
import html, json, os, re
import engine
from layout import Struct

ROW = re.compile(r"<tr>\s*<td>(.*?)</td>\s*<td>(.*?)</td>\s*<td>(.*?)</td>\s*</tr>", re.S)


def text(cell):
    return html.unescape(re.sub(r"<[^>]*>", "", cell)).strip()


def expected(s):
    rows = []
    for f in s.fields:
        for i in range(f.count or 1):
            a = f.start + i * f.ew
            rows.append((f.name + ("[%d]" % i if f.count else ""), a, a + f.ew - 1))
    return s.nbytes, rows


def observed(doc):
    """(bytes, rows) or a reason why the documentation states nothing readable"""
    m = re.search(r"(\d+)\s+bytes?\b", re.sub(r"<table.*", "", doc, flags=re.S))
    if not m:
        return "no size: %r" % doc[:200]
    rows = []
    for bits, name, ty in ROW.findall(re.sub(r"<thead>.*?</thead>", "", doc, flags=re.S)):
        b = re.fullmatch(r"(\d+)(?:\s*:\s*(\d+))?", text(bits))
        if not b:
            return "unreadable bits %r" % bits
        rows.append((text(name), int(b.group(1)), int(b.group(2) or b.group(1))))
    return int(m.group(1)), rows


def run(res, name, structs, shards=8):
    ws = engine.Workspace(name, mc=False, profile="dev", target=os.path.join(engine.BUILD, "target-doc"))
    ws.env = dict(RUSTC_BOOTSTRAP="1", RUSTDOCFLAGS="-Zunstable-options --output-format json --cap-lints allow")
    chunks = engine.split(structs, shards)
    for i, c in enumerate(chunks):
        # one module per structure: a rejected one takes nothing else with it
        src, owner, lines = "#![allow(warnings)]\n", [], 1
        for s in c:
            t = "pub mod m_%s {\nuse packed_struct::prelude::*;\n%s%s}\n" % (s.name, "".join(d.source() for d in s.deps()), s.source())
            owner.append((lines + 1, lines + t.count("\n"), s.name))
            lines += t.count("\n")
            src += t
        crate = "%s_%02d" % (name, i)
        ws.add(crate, src, owner, lib=True)
        p = os.path.join(ws.target, "doc", crate + ".json")
        if os.path.exists(p):
            os.remove(p)
    errs = ws.build(args=("doc", "--no-deps", "--workspace"))
    byname = {s.name: s for s in structs}
    if errs:
        for pkg, f, line, msg, rendered in errs:
            who = ws.owner_of(pkg, line)
            if who is None:
                raise engine.EngineError("the documentation of the generated layouts does not build: " + rendered)
            res.fail(who, "compile", "a well-formed layout", "compiles", rendered or msg, context=dict(source=engine.src_of(byname[who])))
        return
    for i, c in enumerate(chunks):
        p = os.path.join(ws.target, "doc", "%s_%02d.json" % (name, i))
        with open(p) as f:
            index = json.load(f)["index"]
        os.remove(p)
        docs = {}
        for it in index.values():
            inner = it["inner"]
            if "struct" in inner:
                docs.setdefault(it["name"], []).append(it.get("docs") or "")
            elif "impl" in inner and it.get("docs"):
                t = inner["impl"]["for"].get("resolved_path")
                if t:
                    docs.setdefault(t.get("path", t.get("name", "")).split("::")[-1], []).append(it["docs"])
        done = set()
        for s in c:
            # every derived structure of the module, nested ones included
            for d in [x for x in s.deps() if isinstance(x, Struct)] + [s]:
                if d.name in done:
                    continue
                done.add(d.name)
                want = expected(d)
                got = observed("\n".join(sorted(set(docs.get(d.name, [""])))))
                res.states += 1
                res.cases += 1
                res.traces += 1
                res.transitions += len(want[1]) + 1
                if got != want:
                    if isinstance(got, tuple):
                        diff = [(a, b) for a, b in zip(want[1] + [None] * 99, got[1] + [None] * 99) if a != b][:3]
                        g, w = "%d bytes, %d rows; rows that differ: %r" % (got[0], len(got[1]), [b for a, b in diff]), "%d bytes, %d rows; %r" % (want[0], len(want[1]), [a for a, b in diff])
                    else:
                        g, w = got, repr(want)
                    res.fail(d.name, "documentation", engine.src_of(d), w, g, context=dict(source=engine.src_of(d)))
                elif len(res.samples) < 12 and res.cases % 97 == 1:
                    res.samples.append("%s: %r" % (d.name, got))
                res.outcomes += 1
    res.notes.setdefault("layouts", {})[name] = len(structs)
