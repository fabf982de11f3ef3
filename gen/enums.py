"""Enumerated enums: source, expected discriminants by Rust's rules, expected backing type."""
import itertools

RANGES = {}
for _b in (8, 16, 32, 64):
    RANGES["u%d" % _b] = (0, (1 << _b) - 1)
    RANGES["i%d" % _b] = (-(1 << (_b - 1)), (1 << (_b - 1)) - 1)
NAMES = ["Alpha", "Beta", "Gamma", "Delta", "Epsilon", "Zeta", "Eta", "Theta", "Iota", "Kappa", "Lambda", "Mu"]


def parse(lit):
    """(value, suffix) of an integer literal as Rust reads it"""
    s = lit.replace(" ", "").replace("_", "")
    neg = s.startswith("-")
    s = s.lstrip("-")
    suf = ""
    for p in RANGES:
        if s.endswith(p) and not (s.startswith("0x") and p[0] not in "ui"):
            suf = p
            s = s[:-len(p)]
    v = int(s, 0) if s.startswith("0") and len(s) > 1 and s[1] in "xob" else int(s)
    return (-v if neg else v), suf


class En:
    """discs: list of literal or None. derive: backing type or None (left to the derive). repr: or None"""

    def __init__(self, name, lits, derive=None, repr_=None, names=None, attrs=""):
        self.name, self.lits, self.derive, self.repr, self.attrs = name, lits, derive, repr_, attrs
        self.names = names or (NAMES if len(lits) <= len(NAMES) else ["V%d" % i for i in range(len(lits))])[:len(lits)]
        self.discs, self.suffixes = [], []
        nxt = 0
        for l in lits:
            if l is not None:
                nxt, suf = parse(l)
                if suf:
                    self.suffixes.append(suf)
            self.discs.append(nxt)
            nxt += 1

    def valid(self):
        lo, hi = RANGES[self.repr or "i64"]
        if len(set(self.discs)) != len(self.discs) or any(d < lo or d > hi for d in self.discs):
            return False
        if self.derive:
            lo, hi = RANGES[self.derive]
            return all(lo <= d <= hi for d in self.discs)
        return self.expected()[0] is not None

    def expected(self):
        """(exact type or 'any', least number of bits); None when no supported type holds all"""
        if self.derive:
            return self.derive, 0
        fits = [p for p in RANGES if all(RANGES[p][0] <= d <= RANGES[p][1] for d in self.discs)]
        if not fits:
            return None, 0
        bits = max([int(s[1:]) for s in self.suffixes] or [0])
        if self.suffixes or any(d < 0 for d in self.discs):
            return "any", bits
        return [p for p in ("u8", "u16", "u32", "u64") if p in fits][0], 0

    def source(self):
        o = "#[derive(PrimitiveEnum%s, Clone, Copy, PartialEq, Debug)]\n" % ("_" + self.derive if self.derive else "")
        if self.repr:
            o += "#[repr(%s)]\n" % self.repr
        return o + "%spub enum %s { %s }\n" % (self.attrs, self.name, ", ".join(n if l is None else "%s = %s" % (n, l) for n, l in zip(self.names, self.lits)))

    def case(self):
        ty, bits = self.expected()
        return "(mc::enum_case!(%s, [%s]), EnumSpec { discs: vec![%s], prim: %s, bits: %d })" % (
            self.name, " ".join(self.names), ", ".join(str(d) for d in self.discs), "None" if ty == "any" else 'Some("%s")' % ty, bits)


def source(enums):
    src = "#![allow(warnings)]\nuse packed_struct::prelude::*;\nuse mc::enums::EnumSpec;\n"
    owner = []
    line = src.count("\n")
    for e in enums:
        t = e.source()
        owner.append((line + 1, line + t.count("\n"), e.name))
        src += t
        line += t.count("\n")
    # one function per case keeps each body small
    for e in enums:
        t = "fn case_%s() -> (mc::enums::EnumCase, EnumSpec) { %s }\n" % (e.name, e.case())
        owner.append((line + 1, line + 1, e.name))
        src += t
        line += 1
    src += "fn main() { mc::enums::run(&[%s]) }\n" % ", ".join("case_%s()" % e.name for e in enums)
    return src, owner


def types_for(discs):
    return [p for p in RANGES if all(RANGES[p][0] <= d <= RANGES[p][1] for d in discs)]


def keep(out):
    r = []
    for e in out:
        if e.valid():
            r.append(e)
    return r


def sequences(prefix, alphabet, length, every_type=False):
    """all sequences over the alphabet; the backing type rotates over the implicit one and all that hold the values"""
    out, k = [], 0
    for n in range(1, length + 1):
        for lits in itertools.product(alphabet, repeat=n):
            e = En("X", list(lits))
            if len(set(e.discs)) != n:
                continue
            ts = [None] + types_for(e.discs)
            for t in (ts if every_type else [ts[k % len(ts)]]):
                c = En("%s%d" % (prefix, len(out)), list(lits), t)
                if c.valid():
                    out.append(c)
            k += 1
    return out


def edges(prefix):
    """for every backing type: its limits, in several orders and spellings, continued implicitly, suffixed"""
    out = []

    def add(lits, d, r=None, names=None):
        e = En("%s%d" % (prefix, len(out)), [None if l is None else str(l) for l in lits], d, r, names)
        if e.valid():
            out.append(e)
    for p, (lo, hi) in RANGES.items():
        b = int(p[1:])
        big = p if hi > RANGES["i64"][1] else None
        for r in ({big, p} if big is None else {p}):
            for d in (p, None):
                add([lo, hi], d, r)
                add([hi, lo], d, r)
                add([hi - 1, None], d, r)
                add([lo, None, None], d, r)
                add([lo, None, hi - 1, None], d, r)
                add([hi, 0, None], d, r)
                add([0, hi, 1, None], d, r)
                add([hex(hi), "0", hex(hi >> 1)], d, r)
                add(["0b1010", "0o17", "1_1", "0x0_F0" if b > 8 else "0x7_0"], d, r)
                if lo < 0:
                    add([-2, None, None, None, None], d, r)
                    add([-1, None, hi, -3, None], d, r)
                    add([lo, -1, None, None], d, r)
                    add([lo, None, 0, -5, None, 7, None], d, r)
                    add(["-0", None, None], d, r)
                    add(["- 5", "5"], d, r)
                    add(["-0x10", None, "-0b11"], d, r)
                    add([hi, lo + 1, -1, 1], d, r)
                for k in (8, 16, 32):
                    if b > k:
                        # values that agree in their low bits
                        add([5, 5 + (1 << k), 6 + (1 << k), None], d, r)
                        if lo < 0:
                            add([-5, -5 - (1 << k), (1 << k) - 5], d, r)
                            add([(1 << k) - 1, -1], d, r)
                            add([(1 << (k - 1)), -(1 << (k - 1))], d, r)
        # suffixed literals require the representation
        for d in (p, None):
            add(["1%s" % p, None, "7%s" % p], d, p)
            add(["%d%s" % (hi, p), "0%s" % p, None], d, p)
            add(["0x1_0%s" % p, None], d, p)
            add([None, "100_%s" % p, None], d, p)
            if lo < 0:
                add(["-1%s" % p, None, None, "-3%s" % p], d, p)
                add(["%d%s" % (lo, p), None, "%d%s" % (hi, p)], d, p)
                add(["-0%s" % p, None], d, p)
    return out


def sizes(prefix, ns=(1, 2, 5, 17, 64, 128, 255, 256)):
    out = []
    for n in ns:
        out.append(En("%sa%d" % (prefix, n), [None] * n, None))
        if n > 1:
            out.append(En("%sb%d" % (prefix, n), ["-100" if n < 200 else "-128"] + [None] * (n - 1), None))
            out.append(En("%sc%d" % (prefix, n), [str((i * 37 + 11) % 256 if n <= 256 else i) for i in range(n)], "u8"))
            out.append(En("%sd%d" % (prefix, n), [str(65535 - 3 * i) for i in range(n)], "u16"))
            out.append(En("%se%d" % (prefix, n), [str((-1) ** i * (i * 523 + 1)) for i in range(n)], "i32"))
        if n > 60:
            # many variants of wide types, whose values agree in their low bits with undeclared ones
            for k, ty in enumerate(("u16", "u32", "i32", "u64", "i64", "i16")):
                out.append(En("%sg%d_%d" % (prefix, n, k), [None] * n if k % 2 else [str(3 * i + 1) for i in range(n)], ty))
            out.append(En("%sh%d" % (prefix, n), [None if i % 3 else str(i << 16 | 5) for i in range(n)], "u32"))
    out.append(En("%sf" % prefix, [None] * 300, None))
    return keep(out)


def limits(prefix, thorough):
    """the limits of every type, two and three at a time, in every order"""
    pos = [0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**63 - 1]
    top = [2**63, 2**64 - 1]
    neg = [-1, -127, -128, -129, -32768, -32769, -2**31, -2**31 - 1, -2**63 + 1, -2**63]
    out = []

    def add(lits, r=None):
        e = En("%s%d" % (prefix, len(out)), [None if l is None else str(l) for l in lits], None, r)
        if e.valid():
            out.append(e)
    for a in pos + neg:
        add([a])
        add([a], "i64")
        add([a, None])
        add([a, None, None])
    for a in top:
        add([a], "u64")
        add([a, 1, None], "u64")
        add([a - 1, None], "u64")
    for a, b in itertools.permutations(pos + neg, 2):
        add([a, b])
        if thorough:
            add([a, None, b])
            add([a, b, None])
    for a in top:
        for b in pos:
            add([b, a], "u64")
    small = [0, 127, 128, 255, 256, 65535, 2**31, 2**32] if not thorough else pos[:14]
    sneg = [-1, -128, -129, -32769, -2**31 - 1] if not thorough else neg
    for a, b, c in itertools.product(small, sneg, small + sneg):
        for x in ((a, b, c),) if not thorough else set(itertools.permutations((a, b, c))):
            add(list(x))
    for p, (lo, hi) in RANGES.items():
        for s in ("1%s" % p, "%d%s" % (hi, p), "100%s" % p):
            add([s], p)
            add([s, None] if s[0] == "1" else [s, "3"], p)
            add(["2", s], p)
            add([None, s, "5"], p)
        if lo < 0:
            for s in ("-1%s" % p, "%d%s" % (lo, p)):
                add([s], p)
                add([s, "7"], p)
                add(["7", s, None], p)
        for q in (lo, hi, hi // 2, -1, 5):
            if lo <= q <= hi:
                add([q, 9], p)
    return out


def named(prefix):
    """names of every shape"""
    sets = [
        ["A"], ["a"], ["A", "B"], ["X", "y"], ["Ab", "Abc", "Abcd"], ["Foo", "FooBar", "Bar", "BarFoo"], ["FOO", "BAR_BAZ", "Qux_1"], ["foo", "Bar", "bAz"],
        ["None", "Some", "Ok", "Err"], ["Option", "String", "Cow", "Vec", "Result"], ["Default", "Debug", "Copy"], ["A1", "A2", "A11", "A12"], ["X_", "_Y", "Z__Z"],
        ["Größe", "Straße", "Éclair"], ["ΑΒΓ", "Σίσυφος"], ["İstanbul", "Iota"], ["V" + "e" * 60, "W" + "x" * 61], ["Success", "Failure", "SuccessFailure"],
        ["U8", "I8", "Bool", "Str"], ["Zz", "Yy", "Xx", "Ww", "Vv"], ["M%d" % i for i in range(40)], ["Rev%d" % i for i in range(9, -1, -1)], ["val", "s", "name"], ["Self_", "Type", "Match", "Fn", "Dyn"],
        ["InvalidValue", "NotImplemented"], ["Alpha", "Omega", "ALPHA_", "Omega1"], ["AllVariants", "FromStr", "ToDisplayStr"], ["TheQuickBrownFox", "Jumps"],
    ]
    out = []
    for i, s in enumerate(sets):
        for j, lits in enumerate(([None] * len(s), [str(200 - 3 * k) if len(s) < 60 else str(k) for k in range(len(s))], [str(-5 + k * (1 if k % 2 else -1) * 3) for k in range(len(s))])):
            e = En("%s%d_%d" % (prefix, i, j), list(lits), (None, "u8", "i16")[j], None, s)
            if e.valid():
                out.append(e)
    for n in ("HTTPStatus", "a_lower", "SCREAMING", "X1Y2", "Ünï", "E", "PrimitiveKind", "Cow_", "u8_like"):
        out.append(En(n, [None, "5", None], None, None, ["One", "Two", "three"], "/// documented\n#[allow(dead_code)]\n"))
    return out
