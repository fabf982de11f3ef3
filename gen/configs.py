"""C28: every configuration of the crate's features and of the build explored against the same model, and against each other."""
import itertools, os, re, threading, time
from concurrent.futures import ThreadPoolExecutor
import engine
import families as F
import verdicts as VD

STD = {"std": ("std",), "alloc": ("alloc",), "bare": ()}
BYTES = {"b32": (), "b64": ("byte_types_64",), "b256": ("byte_types_256",), "b64+256": ("byte_types_64", "byte_types_256")}
SERDE = {"noserde": (), "serde": ("use_serde",)}
PROFILES = ("mcdebug", "mcopt", "mcrelease")
WIDTHS = {"b32": 255, "b64": 511, "b256": 2047, "b64+256": 2047}


def pairwise():
    """12 of the 72 configurations: every pair of values of two settings occurs"""
    out = []
    ks = list(STD)
    for i, b in enumerate(BYTES):
        for j in range(3):
            out.append((ks[(i + j) % 3], b, list(SERDE)[(i + j * j) % 2], PROFILES[(i + 2 * j) % 3]))
    return out


def check_pairwise(l):
    vals = [list(STD), list(BYTES), list(SERDE), list(PROFILES)]
    for a, b in itertools.combinations(range(4), 2):
        for x in vals[a]:
            for y in vals[b]:
                assert any(c[a] == x and c[b] == y for c in l), (x, y)


def name(c):
    return "-".join(c).replace("+", "_")


def setup_for(c, target, jobs):
    def setup(n):
        ws = engine.Workspace(n, features=STD[c[0]] + BYTES[c[1]] + SERDE[c[2]], profile=c[3], target=target)
        ws.lean = c[0] == "bare"
        ws.jobs = jobs
        # "Requires nightly Rust"
        if c[0] == "alloc":
            ws.env["RUSTC_BOOTSTRAP"] = "1"
            ws.crate_header = "#[macro_use] extern crate alloc;\n"
        return ws
    return setup


ALLOC = """
fn with_alloc() {
    slices("Vec<u8>", &[vec![], vec![1u8, 2, 3]], 5);
    slices("Vec<In>", &[vec![], vec![inn(1)], vec![inn(2), inn(3)]], 7);
    slices("(u8, Vec<In>, u8)", &[(1u8, vec![inn(1), inn(2)], 2u8)], 9);
    // long ones, in digest
    for n in [255usize, 256, 257, 1000, 4096, 32767, 32768, 65535, 65536, 65537, 70001] {
        let v: Vec<u8> = (0..n).map(|i| (i as u8) ^ (i >> 8) as u8).collect();
        line(format!("long Vec<u8> {n}"), || (Vec::<u8>::unpack_from_slice(&v).map(|x| digest(&x)), { let mut b = vec![0x5A; n]; (v.pack_to_slice(&mut b), digest(&b)) }, v.pack_to_vec().map(|x| digest(&x)), Vec::<u8>::packed_bytes_size(Some(&v))));
        line(format!("long Vec<[u8; 3]> {n}"), || { let w: Vec<[u8; 3]> = v.iter().map(|x| [*x, 1, !*x]).collect(); let p = w.pack_to_vec(); (p.clone().and_then(|x| Vec::<[u8; 3]>::unpack_from_slice(&x)).map(|x| x == w), p.map(|x| digest(&x))) });
        line(format!("long (u8, Vec<u8>, u16 array) {n}"), || { let t = (3u8, v.clone(), [7u8; 200]); let p = t.pack_to_vec(); (p.clone().and_then(|x| <(u8, Vec<u8>, [u8; 200])>::unpack_from_slice(&x)).map(|x| x == t), p.map(|x| digest(&x))) });
        if n <= 4096 {
            line(format!("long Vec<Vec<In>> {n}"), || { let w: Vec<In> = v.iter().map(|x| inn(*x)).collect(); let p = w.pack_to_vec(); (p.clone().and_then(|x| Vec::<In>::unpack_from_slice(&x)).map(|x| x == w), p.map(|x| digest(&x))) });
        }
    }
    line("show Big".into(), || { let b = big(); digest(b.to_string().as_bytes()) });
    for k in 0..=255u8 { line(format!("show {k}"), || (outer(k).to_string(), inn(k).to_string(), outer(k).pack_to_vec(), (k, vec![inn(k)]).pack_to_vec())); }
    for v in 0..=255u8 { line(format!("catch-all text {v}"), || EnumCatchAll::<En>::from_primitive(v).map(|x| x.to_display_str().to_string())); }
}
"""


INT_WIDTHS = (1, 5, 8, 12, 16, 20, 24, 33, 57, 64)


def config_source(c, every):
    ints = "".join("int::<%s, %d>(\"%s\");\n" % (t, n, t) for t in F.PRIMS for n in range({8: 1, 16: 9, 32: 17, 64: 33}[int(t[1:])], int(t[1:]) + 1) if every or n in INT_WIDTHS)
    ws = list(range(1, 256)) + list(range(256, 2048, 37)) if every or (c[0], c[3]) == ("std", "mcdebug") else []
    ws += list(range(1, 18)) + [24, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 248, 249, 254, 255, 256, 257, 264, 504, 505, 511, 512, 513, 1023, 1024, 1025, 2040, 2041, 2047]
    ws = [w for w in ws if w <= WIDTHS[c[1]]]
    widths = "".join("width::<%d>(); " % w for w in sorted(set(ws)))
    a = c[0] != "bare"
    return engine.engine_src("config.rs", HEADER="#[macro_use] extern crate alloc;\n" if c[0] == "alloc" else "", INTS=ints, WIDTHS=widths,
                             ALLOC=ALLOC.replace("fn with_alloc() {", "fn with_alloc() {\n    line(\"alloc:\".into(), || 0);") if a else "", ALLOC_ALL="with_alloc();" if a else "")


def lines_of(c, target, jobs, res, lock, every):
    ws = setup_for(c, target, jobs)("c28m_" + name(c))
    ws.mc = False
    m = "c28m_" + name(c).replace("-", "_")
    ws.add(m, config_source(c, every))
    errs = ws.build()
    if errs:
        with lock:
            res.fail(name(c), "compile", "the program that uses every operation", "compiles", errs[0][4] or errs[0][3])
        return None
    out = os.path.join(ws.root, "out.txt")
    p = engine.run_group([ws.bin(m), out], 300)
    if p is None or p.returncode:
        with lock:
            res.fail(name(c), "crash", "the program that uses every operation", "runs to its end", "no end" if p is None else "ended with %d: %s" % (p.returncode, p.stderr.decode(errors="replace")[-500:]))
        return None
    with open(out) as f:
        return dict(l.rstrip("\n").split("\t", 1) for l in f)


def run(res, structs, tier):
    t = tier == "thorough"
    confs = [c for c in itertools.product(STD, BYTES, SERDE, PROFILES)] if t else pairwise()
    check_pairwise(confs)
    base = ("std", "b32", "noserde", "mcdebug")
    if base not in confs:
        confs = [base] + confs
    # configurations that share most of the build go into one lane, one after another
    lanes = {}
    for c in confs:
        lanes.setdefault((c[3], c[0] == "alloc"), []).append(c)
    order = []
    for k, l in lanes.items():
        h = max(1, (len(l) + 2) // (8 if t else 3))
        order += [(k, i, l[i::h]) for i in range(h)]
    jobs = max(2, engine.JOBS // 4)
    lock = threading.Lock()
    texts = {}

    def lane(x):
        k, i, l = x
        target = os.path.join(engine.BUILD, "target-c28-%s%s%d" % (k[0], "-alloc" if k[1] else "", i))
        for c in l:
            t0 = time.time()
            texts[c] = lines_of(c, target, jobs, res, lock, t)
            part = engine.Result()
            with lock:
                res.notes.setdefault("lines_s", {})[name(c)] = round(time.time() - t0, 1)
            show = c[0] != "bare"
            try:
                engine.codec(part, "c28_" + name(c), structs, ["pack", "unpack", "total", "slice"] + (["show"] if show else []), "quick" if t else "small", show=show, slices=True, shards=3, setup=setup_for(c, target, jobs), label=name(c) + ":", workers=3)
            except engine.EngineError as e:
                return e
            with lock:
                res.absorb(part)
    with ThreadPoolExecutor(6) as ex:
        errors = [e for e in ex.map(lane, order) if e]
    if errors and not res.records:
        raise errors[0]
    ref = texts[base]
    for c in confs:
        if texts.get(c) is None or ref is None:
            continue
        got = texts[c]
        res.states += len(got)
        res.transitions += len(got)
        res.traces += len(got)
        res.cases += 1
        want = dict(ref)
        if c[0] == "bare":
            # what needs an allocator is not there
            alone = set(ref) - set(got)
            bad = [k for k in alone if not re.search(r"^w:|^alloc:|Vec<|^show |^catch-all text ", k)]
        else:
            bad = [k for k in want if k not in got and not k.startswith("w:")]
        bad += [k for k in got if k not in want and not (k.startswith("w:") and int(k[2:]) > 255)]
        bad += [k for k in got if k in want and got[k] != want[k]]
        for k in bad[:3]:
            res.fail(name(c), "differs", k, "%s: %s" % (name(base), want.get(k)), got.get(k))
        res.nviol += max(0, len(bad) - 3)
    if ref:
        res.outcomes += len(set(ref.values()))
        res.samples += ["%s = %s" % x for x in list(ref.items())[5::max(1, len(ref) // 8)]]
    # the wider configurations agree with each other on what they add
    adds = {}
    for c, got in texts.items():
        for k, v in (got or {}).items():
            if k.startswith("w:"):
                n = int(k[2:])
                b = (n + 7) // 8
                if adds.setdefault(k, v) != v:
                    res.fail(name(c), "differs", k, adds[k], v)
                if not v.startswith("(%d, %d, %d, %d, Ok([0%s" % (n, b, b, n, ", " if b > 1 else "]")):
                    res.fail(name(c), "width", k, "%d bits in %d bytes" % (n, b), v[:200])
    res.notes["configurations"] = [name(c) for c in confs]
