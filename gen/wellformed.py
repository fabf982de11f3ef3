"""Small programs, each with the verdict the documentation gives it."""
import itertools


def it(w, signed=False):
    nb = 8 if w <= 8 else 16 if w <= 16 else 32 if w <= 32 else 64
    return "Integer<%s%d, packed_bits::Bits::<%d>>" % ("ui"[signed], nb, w)


def st(fields, attrs='bit_numbering="msb0", endian="msb"', extra=""):
    """fields: (attribute text or None, type)"""
    o = extra + "#[derive(PackedStruct)]\n"
    if attrs:
        o += "#[packed_struct(%s)]\n" % attrs
    o += "pub struct S {\n"
    for i, (a, t, *nm) in enumerate(fields):
        if a and a.startswith("#"):
            o += "    " + a + "\n"
        elif a:
            o += "    #[packed_field(%s)]\n" % a
        o += "    %s: %s,\n" % (nm[0] if nm else "pub f%d" % i, t)
    return o + "}"


ENUM16 = "#[derive(PrimitiveEnum_u16, Clone, Copy, PartialEq, Debug)]\npub enum E { A = 0, B = 300 }\n"
ENUM8 = "#[derive(PrimitiveEnum_u8, Clone, Copy, PartialEq, Debug)]\npub enum E { A = 0, B = 3 }\n"
INNER = "#[derive(PackedStruct, Debug)]\npub struct In { pub x: u8, pub y: u8 }\n"


class Programs:
    def __init__(self):
        self.items = {}

    def add(self, family, src, ok, why):
        """ok: the documented verdict"""
        i = "%s%d" % (family, len(self.items))
        self.items[i] = (src, ok, why)


def rng(a, b):
    return "%d:%d" % (a, b)


def pairs(p, n, numbering="msb0"):
    rs = [(a, b) for a in range(n) for b in range(a, n)]
    attrs = 'bit_numbering="%s", endian="lsb"' % numbering + (', size_bytes="%d"' % ((n + 7) // 8) if numbering == "lsb0" else "")
    for k, (x, y) in enumerate(itertools.product(rs, repeat=2)):
        f = []
        for j, (a, b) in enumerate((x, y)):
            w = b - a + 1
            s = rng(a, b) if (k + j) % 3 else "%d..=%d" % (a, b) if (k + j) % 2 else "%d..%d" % (a, b + 1)
            if numbering == "lsb0" and (k + j) % 3 == 1:
                s = rng(b, a)
            f.append(('bits="%s"' % s, it(w)))
        p.add("pair", st(f, attrs), x[1] < y[0] or y[1] < x[0], "bits %d:%d and %d:%d" % (x + y))


NAMES = ["_", "_pad", "_reserved", "reserved", "pad", "padding", "__", "_0", "r#type", "r#_f", "Self_", "unused", "gap", "x_0", "src", "F"]


def namings(p):
    """whether fields overlap, or fit, does not depend on what they are called, who sees them or what else is written on them"""
    pre = ["", "pub ", "pub(crate) ", "/// unused\n    pub ", "#[allow(dead_code)] ", "#[doc(hidden)] pub "]
    for i, nm in enumerate(NAMES):
        if nm == "_":
            nm = "_a"
        for j, v in enumerate(pre):
            if (i + j) % 3 and v:
                continue
            for t, w in ((it(6), 6), ("ReservedZero<packed_bits::Bits::<6>>", 6), ("ReservedOne<packed_bits::Bits::<6>>", 6), ("[%s; 2]" % it(3), 6)):
                for b, ok in ((4, True), (3, False)):
                    for rev in (0, 1):
                        f = [('bits="4:9"', t, v + nm), ('bits="%d:%d"' % (b - 2, b - 1) if ok else 'bits="%d:%d"' % (b, b + 1), it(2), "pub other")]
                        p.add("name", st(f[::-1] if rev else f), ok, "%s%s: %s in bits 4:9 and two bits at %d" % (v, nm, t, b - 2 if ok else b))
                p.add("name", st([('bits="0"', "bool"), ('bits="11:16"', t, v + nm)], 'bit_numbering="msb0", size_bytes="2"'), False, "%s beyond the end" % nm)
                p.add("name", st([('bits="0"', "bool"), ('bits="10:15"', t, v + nm)], 'bit_numbering="msb0", size_bytes="2"'), True, "%s up to the end" % nm)
            p.add("name", st([('bits="0:15"', "u16", v + nm)], 'bit_numbering="msb0"'), False, "%s without endianness" % nm)
            p.add("name", st([('bits="0:15"', "u16", v + nm)], None), False, "%s without a bit numbering" % nm)


def crowds(p, big):
    """one overlap, of one bit, somewhere among many fields"""
    for n in (12, 40) + ((150,) if big else ()):
        ix = [0, 1, 2, n // 2, n - 3, n - 2, n - 1]
        for i in ix:
            for j in ix:
                if i >= j:
                    continue
                # fields of four bits at multiples of five; field i is moved upon the last or the first bit of field j
                for at, ok in ((5 * j + 3, False), (5 * j - 4 + 1, False), (5 * n, True)):
                    pos = [5 * k for k in range(n)]
                    pos[i] = at
                    # moving it upon j only, never upon another one
                    hit = [k for k in range(n) if k != i and not (pos[k] + 3 < at or at + 3 < pos[k])]
                    if bool(hit) == ok:
                        continue
                    for order in ("declared", "reversed", "interleaved"):
                        f = [('bits="%d:%d"' % (s, s + 3), it(4), "pub a%d" % k) for k, s in enumerate(pos)]
                        f = f if order == "declared" else f[::-1] if order == "reversed" else f[::2] + f[1::2]
                        p.add("crowd", st(f), ok, "field %d of %d at bit %d, %s" % (i, n, at, order))


def triples(p, n):
    rs = [(a, b) for a in range(n) for b in range(a, n)]
    for x in itertools.product(rs, repeat=3):
        ok = all(a[1] < b[0] or b[1] < a[0] for a, b in itertools.combinations(x, 2))
        p.add("triple", st([('bits="%d:%d"' % r, it(r[1] - r[0] + 1)) for r in x]), ok, "bits %r" % (x,))


def boundaries(p, offs, widths):
    """a single bit at, before and after each end of another field of any kind"""
    for o in offs:
        for w in widths:
            kinds = [(it(w), "")]
            if w % 8 == 0:
                kinds += [("[u8; %d]" % (w // 8), ""), ("ReservedOne<packed_bits::Bits::<%d>>" % w, "")]
            if w == 16:
                kinds += [("In", INNER), ("u16", ""), ("E", ENUM16)]
            for t, x in kinds:
                for b in {o - 1, o, o + 1, o + w // 2, o + w - 2, o + w - 1, o + w}:
                    if b < 0:
                        continue
                    a = 'bits="%d:%d"' % (o, o + w - 1) + (', ty="enum"' if t == "E" else "")
                    f = [(a, t), ('bits="%d"' % b, "bool")]
                    for order in (f, f[::-1]):
                        p.add("edge", st(order, extra=x), not o <= b < o + w, "%s at %d and a bit at %d" % (t, o, b))


def sizes(p, big):
    n = 26 if big else 19
    for num in ("msb0", "lsb0"):
        for size in (1, 2, 3) if big else (1, 2):
            for a in range(n):
                for b in range(a, n):
                    if not big and (a * 7 + b) % 2 and abs(b - size * 8) > 1:
                        continue
                    at = 'bit_numbering="%s", size_bytes="%d", endian="msb"' % (num, size)
                    p.add("size", st([('bits="%d:%d"' % (a, b), it(b - a + 1))], at), b < size * 8, "bits %d:%d in %d bytes, %s" % (a, b, size, num))
    for size in range(1, 6):
        for types in (["u8"] * 3, ["u16", "u8"], ["[u8; 3]"], ["u32"], ["bool", it(7), "u16"], ["u8", it(9)]):
            bits = sum({"u8": 8, "u16": 16, "u32": 32, "[u8; 3]": 24, "bool": 1, it(7): 7, it(9): 9}[t] for t in types)
            for first in (None, 'bits="0.."'):
                f = [(None, t) for t in types]
                f[0] = (first, f[0][1])
                p.add("fill", st(f, 'bit_numbering="msb0", endian="msb", size_bytes="%d"' % size), bits <= size * 8, "%s in %d bytes" % (types, size))
    # arrays of which only the last element, or the last bit, does not fit
    for num in ("msb0", "lsb0"):
        for size in (2, 3, 5):
            for s in (0, 1, 8):
                for k in (1, 2, 3, 4, 5):
                    b = s + 8 * k - 1
                    p.add("fill", st([('bits="%d:%d"' % (s, b), "[u8; %d]" % k)], 'bit_numbering="%s", size_bytes="%d"' % (num, size)), b < size * 8, "[u8; %d] at %d in %d bytes" % (k, s, size))


def arrays(p, big):
    for n in range(1, 7 if big else 6):
        for w in range(1, 41 if big else 25):
            for t, fit in ((it(3), lambda e: e == 3), (it(5), lambda e: e == 5), ("u8", lambda e: 1 <= e <= 8), ("bool", lambda e: 1 <= e <= 8), ("ReservedZero<packed_bits::Bits::<4>>", lambda e: e == 4)):
                div = w % n == 0
                if div and not fit(w // n):
                    continue        # the element's slot does not suit its type: nothing is claimed here
                for num in ("msb0", "lsb0") if n == 3 or big else ("msb0",):
                    p.add("array", st([('bits="0:%d"' % (w - 1), "[%s; %d]" % (t, n))], 'bit_numbering="%s", endian="msb"%s' % (num, ', size_bytes="%d"' % ((w + 7) // 8) if num == "lsb0" else "")), div, "[%s; %d] in %d bits" % (t, n, w))
    # a bit at every position around and inside an array
    for n, e in ((2, 5), (3, 3), (4, 8), (5, 1)):
        for s in (0, 3):
            for b in range(0, s + n * e + 2):
                for order in (1, -1):
                    f = [('bits="%d:%d"' % (s, s + n * e - 1), "[%s; %d]" % (it(e), n)), ('bits="%d"' % b, "bool")]
                    p.add("hole", st(f[::order]), not s <= b < s + n * e, "an array of %d x %d bits at %d and a bit at %d" % (n, e, s, b))
                    f = [('bits="%d..", element_size_bits="%d"' % (s, e), "[%s; %d]" % (it(e), n)), ('bits="%d"' % b, "bool")]
                    p.add("hole", st(f[::order]), not s <= b < s + n * e, "an open-ended array of %d x %d bits at %d and a bit at %d" % (n, e, s, b))


def flows(p, gaps, big):
    """automatic and open-ended fields against explicit ones"""
    ws = (1, 3, 8, 9, 16)
    for w1, w2 in itertools.product(ws, repeat=2):
        for s in range(0, 20 if big else 18):
            p.add("flow", st([('bits="0.."', it(w1)), ('bits="%d.."' % s, it(w2))]), s >= w1, "%d bits from 0 and %d bits from %d" % (w1, w2, s))
            p.add("flow", st([('bits="%d:"' % s, it(w1)), (None, it(w2)), ('bits="%d"' % (w1 // 2 + w2), "bool")]), not s <= w1 // 2 + w2 < s + w1 + w2, "%d bits from %d, %d bits after them, and bit %d" % (w1, s, w2, w1 // 2 + w2))
    for total in range(1, 65 if big else 42):
        # an automatic first field in a structure of any number of bits
        if total <= 64:
            p.add("first", st([(None, it(total))]), total % 8 == 0, "an automatic first field, %d bits in all" % total)
            p.add("first", st([(None, it(total))], 'bit_numbering="msb0", endian="msb", size_bytes="%d"' % ((total + 7) // 8)), True, "the same with a size")
            p.add("first", st([('bits="0.."', it(total))]), True, "the same with a position")
        if total > 3:
            p.add("first", st([(None, it(3)), (None, it(total - 3))]), total % 8 == 0, "automatic fields of 3 and %d bits" % (total - 3))
            p.add("first", st([(None, it(3)), ('bits="%d:%d"' % (9, total + 6), it(total - 2))]), (total + 7) % 8 == 0, "an automatic first field and bits 9:%d" % (total + 6))
            p.add("first", st([('bits="0:2"', it(3)), (None, it(total - 3))]), True, "a positioned first field, %d bits in all" % total)


GOOD = [("bits=\"%d:%d\"", it(6)), ("bits=\"%d:%d\"", it(6, True))]


def slots(n):
    return [(i * 8, i * 8 + 7) for i in range(n)]


def placed_defects(p, big):
    """each kind of defect at each place of a structure of 1..4 fields"""
    for n in (1, 2, 3, 4):
        for k in range(n):
            # positions without a bit numbering
            for a in ('bits="%d:%d"' % slots(n)[k], 'bits="%d.."' % (8 * k), 'bits="%d:"' % (8 * k), 'bytes="%d"' % k, 'bytes="%d.."' % k, 'bytes="%d:%d"' % (k, k), 'bits="%d..=%d"' % slots(n)[k], 'bits="%d..%d"' % (8 * k, 8 * k + 8)):
                f = [(None, "u8") for _ in range(n)]
                f[k] = (a, "u8")
                p.add("nonum", st(f, None), False, "%s without a bit numbering" % a)
                p.add("nonum", st(f, 'size_bytes="%d", endian="msb"' % n), False, "%s without a bit numbering" % a)
                if a.startswith("bytes") and "." not in a or a.startswith("bits") and ":" in a and not a.endswith(':"'):
                    p.add("num", st(f, 'bit_numbering="msb0"'), True, "%s with a bit numbering" % a)
            p.add("num", st([(None, "u8")] * n, None), True, "automatic fields without a bit numbering")
            # LSB0 needs a size and full ranges
            f = [('bits="%d:%d"' % s, "u8") for s in slots(n)]
            p.add("lsb0", st(f, 'bit_numbering="lsb0"'), False, "LSB0 without a size")
            p.add("lsb0", st(f, 'bit_numbering="lsb0", size_bytes="%d"' % n), True, "LSB0 with a size")
            for a in (None, 'size_bits="8"', 'bits="%d.."' % (8 * k), 'bits="%d:"' % (8 * k), 'bytes="%d.."' % k, 'bytes="%d:"' % k, 'bits="%d..", size_bytes="1"' % (8 * k)):
                g = list(f)
                g[k] = (a, "u8")
                p.add("lsb0", st(g, 'bit_numbering="lsb0", size_bytes="%d"' % n), False, "LSB0 with the position %s" % a)
            # endianness
            for t, w, x, e in [("u16", 16, "", 0), ("i16", 16, "", 0), ("u32", 32, "", 0), ("i32", 32, "", 0), ("u64", 64, "", 0), ("i64", 64, "", 0), (it(9), 9, "", 0), (it(16), 16, "", 0), (it(33, True), 33, "", 0), (it(64), 64, "", 0), ("u16", 9, "", 0), ("i64", 40, "", 0), ("E", 16, ENUM16, 1), ("EnumCatchAll<E>", 11, ENUM16, 1), ("[u16; 2]", 32, "", 0), ("[%s; 2]" % it(12), 24, "", 0), ("[E; 2]", 32, ENUM16, 1)]:
                for how in ("none", "field", "struct"):
                    if how != "none" and (n > 2 and not big):
                        continue
                    f, at = [], 0
                    for j in range(n):
                        if j == k:
                            f.append(('bits="%d:%d"%s%s' % (at, at + w - 1, ', ty="enum"' if e else "", ', endian="le"' if how == "field" else ""), t))
                            at += w
                        else:
                            f.append(('bits="%d:%d", endian="lsb"' % (at, at + 15), "u16"))
                            at += 16
                    p.add("endian", st(f, 'bit_numbering="msb0"' + (', endian="be"' if how == "struct" else ""), x), how != "none", "%s in %d bits, endianness %s" % (t, w, how))
            for t, w, x, e in [("u8", 8, "", 0), ("i8", 5, "", 0), (it(8), 8, "", 0), (it(3, True), 3, "", 0), ("bool", 1, "", 0), ("ReservedOne<packed_bits::Bits::<19>>", 19, "", 0), ("In", 16, INNER, 0), ("E", 4, ENUM8, 1), ("[u8; 4]", 32, "", 0), ("[bool; 9]", 9, "", 0), ("[In; 2]", 32, INNER, 0)]:
                f = [('bits="%d:%d"' % (i * 40, i * 40 + 7), "u8") for i in range(n)]
                f[k] = ('bits="%d:%d"%s' % (k * 40, k * 40 + w - 1, ', ty="enum"' if e else ""), t)
                p.add("small", st(f, 'bit_numbering="msb0"', x), True, "%s in %d bits without endianness" % (t, w))
            # widths that are nowhere stated
            for t, x, e in [("In", INNER, 0), ("E", ENUM8, 1), ("E", ENUM16, 1), ("EnumCatchAll<E>", ENUM8, 1), ("[In; 2]", INNER, 0), ("[E; 3]", ENUM8, 1)]:
                for a in (None, 'bits="%d.."' % (8 * k), 'bytes="%d:"' % k):
                    if k == 0 and a is None and n > 1:
                        continue
                    f = [('bits="%d:%d"' % (i * 64, i * 64 + 7), "u8") for i in range(k)] + [None] + [(None, "u8") for i in range(n - k - 1)]
                    if a and k:
                        a = a.replace("%d" % (8 * k), "%d" % (64 * k)) if "bits" in a else a.replace("%d" % k, "%d" % (8 * k))
                    for how in ("none", "size"):
                        w = {"In": 16, "E": 16 if x == ENUM16 else 8}.get(t.strip("[]").split(";")[0].replace("EnumCatchAll<E>", "E"), 16)
                        b = [y for y in (a, 'ty="enum"' if e else None, ('%ssize_bits="%d"' % ("element_" if t[0] == "[" else "", w)) if how == "size" else None) if y]
                        f[k] = (", ".join(b) if b else None, t)
                        p.add("width", st(list(f), 'bit_numbering="msb0", endian="msb"', x), how == "size", "%s at %s, size %s" % (t, a, how))
            # widths that are constants or expressions: known to the derive only if they are stated
            C = "pub const W: usize = 5; pub const N7: usize = 5; pub const B3_2: usize = 5;\n"
            for w in ("{2 + 3}", "{10 / 2}", "W", "{W}", "N7", "{N7}", "B3_2", "{1 + 4 * 1}", "{if true { 5 } else { 7 }}", "{15 - 0xA}", "{[5, 3][0]}"):
                for t in ("ReservedZero<packed_bits::Bits<%s>>", "Integer<u8, packed_bits::Bits::<%s>>", "ReservedOne<packed_bits::Bits<%s>>"):
                    if "Integer" in t and not w[0] == "{" and n > 2:
                        continue
                    f = [('bits="%d:%d"' % (i * 8, i * 8 + 7), "u8") for i in range(k)] + [None] + [(None, "u8") for i in range(n - k - 1)]
                    for a in ((None, 'bits="%d.."' % (8 * k)) if k else ('bits="0.."',)):
                        f[k] = (a, t % w)
                        p.add("const", st(list(f), 'bit_numbering="msb0", endian="msb"', C), False, "%s at %s" % (t % w, a))
                        f[k] = ((a + ", " if a else "") + 'size_bits="5"', t % w)
                        p.add("const", st(list(f), 'bit_numbering="msb0", endian="msb"', C), True, "%s at %s, size stated" % (t % w, a))
                    f[k] = ('bits="%d:%d"' % (8 * k, 8 * k + 4), t % w)
                    p.add("const", st(list(f), 'bit_numbering="msb0", endian="msb"', C), True, "%s in 5 bits" % (t % w))
            for w in ("5", "0x5", "0b101", "0o5", "5usize", "0_5", "5_", "{5}", "{ 0x5 }", "5_usize"):
                for t in ("ReservedZero<packed_bits::Bits<%s>>", "Integer<u8, packed_bits::Bits::<%s>>", "Integer<i8, packed_bits::Bits<%s,>,>"):
                    f = [('bits="%d:%d"' % (i * 8, i * 8 + 7), "u8") for i in range(k)] + [('bits="0.."' if k == 0 else None, t % w)] + [('bits="%d:%d"' % (8 * i - 3, 8 * i + 4), "u8") for i in range(k + 1, n)]
                    p.add("literal", st(f, 'bit_numbering="msb0", endian="msb"'), True, "%s followed by the bits after it" % (t % w))
                    f = [('bits="%d:%d"' % (i * 8, i * 8 + 7), "u8") for i in range(k)] + [('bits="0.."' if k == 0 else None, t % w)] + [('bits="%d:%d"' % (8 * i - 4, 8 * i + 3), "u8") for i in range(k + 1, n)]
                    if k + 1 < n:
                        p.add("literal", st(f, 'bit_numbering="msb0", endian="msb"'), False, "%s followed by its own last bit" % (t % w))
            # attributes in the wrong place
            f = [('bits="%d:%d"' % s, "u8") for s in slots(n)]
            for b in ('#[packed_struct(bits="%d:%d")]' % slots(n)[k], '#[packed_field(bits="%d:%d")] #[packed_struct(endian="msb")]' % slots(n)[k], '#[packed_struct(bit_numbering="msb0")] #[packed_field(bits="%d:%d")]' % slots(n)[k], "#[packed_struct()]"):
                g = list(f)
                g[k] = (b, "u8")
                p.add("place", st(g), False, "%s on a field" % b)
            # malformed values
            for a in ("a", "1:a", "a:1", "1:2:3", "", " ", "-1", "-1:3", "1.5", "0x", "0xG", "1..2..3", "1;2", ":5", "..5", "..", ":", "1e1", "99999999999999999999999", "1..=", "..=4", "1...4", "1-2", "1,2", "1 2", "one", "0x-1"):
                if a == "1..=":
                    continue
                for key in ("bits", "bytes") if a in ("a", "", ":", "1:2:3", "1:a", "0xG", "-1") else ("bits",):
                    g = list(f)
                    g[k] = ('%s="%s"' % (key, a), "u8")
                    p.add("value", st(g, 'bit_numbering="msb0", endian="msb"'), False, '%s="%s"' % (key, a))
                    if a != "1..=" and n <= 2:
                        p.add("value", st(g, 'bit_numbering="lsb0", endian="msb", size_bytes="9"'), False, '%s="%s" in LSB0' % (key, a))
            for a in ('size_bits="x"', 'size_bits=""', 'size_bits="-8"', 'size_bytes="one"', 'size_bytes="1.0"', 'endian="big"', 'endian=""', 'endian="little"', 'endian="msb0"', 'ty="enumeration"', 'ty=""'):
                g = list(f)
                g[k] = (f[k][0] + ", " + a, "u8")
                p.add("value", st(g), False, a)
                g[k] = (a + ", " + f[k][0], "u8")
                p.add("value", st(g), False, a)
            for a in ('element_size_bits="x"', 'element_size_bytes=""', 'element_size_bits="0x"'):
                g = list(f)
                g[k] = (f[k][0] + ", " + a, "[u8; 1]")
                p.add("value", st(g), False, a)
    for a in ('bit_numbering="lsb"', 'bit_numbering="msb1"', 'bit_numbering=""', 'bit_numbering="msb0 "', 'bit_numbering="msb0", endian="big"', 'bit_numbering="msb0", endian=""', 'bit_numbering="msb0", endian="lsb0"', 'bit_numbering="msb0", size_bytes="x"', 'bit_numbering="msb0", size_bytes=""', 'bit_numbering="msb0", size_bytes="-1"', 'bit_numbering="msb0", size_bytes="0x"', 'size_bytes="2.0", bit_numbering="msb0"'):
        p.add("value", st([('bits="0:7"', "u8"), ('bits="8:15"', "u8")], a), False, a)
    for a in ('bit_numbering="msb0"', 'bit_numbering="MSB0"', 'bit_numbering="Msb0"', 'bit_numbering="lsb0", size_bytes="2"', 'bit_numbering="LSB0", size_bytes="0x2"', 'bit_numbering="Lsb0", size_bytes=" 2 "', 'bit_numbering="msb0", size_bytes="0X02"', 'bit_numbering="msb0", endian="BE"', 'bit_numbering="msb0", endian="Lsb"', 'size_bytes="2", endian="le", bit_numbering="lsb0"'):
        p.add("attr", st([('bits="0:7"', "u8"), ('bits="8:15"', "u8")], a), True, a)
    for body in ("pub struct S { pub a: u8 }", "pub struct S {\n    #[packed_field(bits=\"0:7\")]\n    pub a: u8 }"):
        for a in ("#[packed_field(bit_numbering=\"msb0\")]", "#[packed_field(endian=\"msb\")]", "#[packed_field()]", "#[packed_struct(bit_numbering=\"msb0\")]\n#[packed_field(size_bytes=\"1\")]", "#[packed_field(size_bytes=\"1\")]\n#[packed_struct(bit_numbering=\"msb0\")]"):
            p.add("place", "#[derive(PackedStruct)]\n%s\n%s" % (a, body), False, "%s on a structure" % a)


def all_programs(thorough):
    p = Programs()
    pairs(p, 12 if thorough else 8)
    pairs(p, 8 if thorough else 5, "lsb0")
    triples(p, 5 if thorough else 3)
    boundaries(p, (0, 1, 7, 8, 63, 127, 255, 4093) if thorough else (0, 7, 63, 255), (1, 2, 7, 8, 9, 16, 24, 33, 64) if thorough else (1, 8, 9, 16, 33))
    sizes(p, thorough)
    arrays(p, thorough)
    namings(p)
    crowds(p, thorough)
    flows(p, None, thorough)
    placed_defects(p, thorough)
    return p.items
