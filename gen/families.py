"""Families of layouts. Every function enumerates a stated set completely."""
import itertools
from layout import *

TYPES_U = {8: "u8", 16: "u16", 32: "u32", 64: "u64"}
TYPES_I = {8: "i8", 16: "i16", 32: "i32", 64: "i64"}


def int_elem(w, signed, native):
    t = (TYPES_I if signed else TYPES_U)[native_bits(w)]
    return Nat(t) if native else Int(t, w)


def scalar_sweep(prefix, widths, offsets, signs=(False, True), kinds=(True, False), endians=("msb", "lsb"), per=8, numbering="msb0", lead=0, rotate=False):
    """One field per (width, offset mod 8, sign, native/Integer, endian); `per` of them per structure.
    Between two fields lie 0..7 unclaimed bits, as the offset demands."""
    combos = [(w, o, s, n, e) for w in widths for s in signs for n in kinds for e in endians for o in offsets]
    if rotate:
        combos = [c for c in combos if (c[2] + 2 * c[3] + c[0] + c[1] + (c[4] == "lsb")) % 4 == 0]
    out = []
    # spread so that neighbours differ: structures take combos in strides
    groups = [combos[i:i + per] for i in range(0, len(combos), per)]
    for gi, g in enumerate(groups):
        pos, fields = lead * 8, []
        for (w, o, s, n, e) in g:
            start = pos + (o - pos) % 8
            fields.append(Field(int_elem(w, s, n), start, ew=w, endian=e))
            pos = start + w
        size = None
        if numbering == "lsb0":
            size = (pos + 7) // 8 + gi % 2
        out.append(Struct("%s%d" % (prefix, gi), fields, numbering=numbering, size_bytes=size))
    return out


def single_sweep(prefix, widths, offsets, numbering="msb0", endians=("msb", "lsb"), signs=(False, True), sizes=(0, 1)):
    """Structures with a single integer field, with `sizes` extra bytes after it."""
    out = []
    for i, (w, o, e, s, x) in enumerate(itertools.product(widths, offsets, endians, signs, sizes)):
        nb = (o + w + 7) // 8 + x
        native = (w + o) % 2 == 0
        out.append(Struct("%s%d" % (prefix, i), [Field(int_elem(w, s, native), o, ew=w, endian=e)], numbering=numbering,
                          size_bytes=nb if (x or numbering == "lsb0") else None))
    return out


def one_byte_structs(prefix):
    """Every layout of disjoint integer/bool fields in one byte: all ordered compositions of runs,
    each run a field or a gap. Complete for structures of unsigned fields of one byte."""
    out = []

    def rec(pos, acc):
        if pos == 8:
            if acc:
                out.append(list(acc))
            return
        rec_gap(pos, acc)
        for w in range(1, 9 - pos):
            rec(pos + w, acc + [(pos, w)])

    def rec_gap(pos, acc):
        rec(pos + 1, acc)
    rec(0, [])
    structs = []
    for i, l in enumerate(out):
        fields = []
        for k, (p, w) in enumerate(l):
            kind = (i + k) % 4
            if w == 1 and kind == 0:
                el = Bool()
            elif kind == 1:
                el = Nat("i8")
            elif kind == 2:
                el = Int("u8", w)
            else:
                el = Nat("u8")
            fields.append(Field(el, p, ew=w, pos=("range", "excl", "range=", "hilo")[(i + k) % 4] if w > 1 else "single"))
        if i % 3 == 1:
            fields = fields[::-1]
        for k, f in enumerate(fields):
            f.name = "f%d" % k
        structs.append(Struct("%s%d" % (prefix, i), fields, size_bytes=1 if fields and max(f.end for f in fields) < 7 and i % 2 else None))
    return structs


def reverse_decl(structs, suffix="r"):
    """the same explicitly positioned fields declared in reverse order"""
    out = []
    for s in structs:
        fs = [Field(f.elem, f.start, f.ew, f.count, f.endian, f.pos if f.pos != "next" else "range", "g%d" % i, f.extra) for i, f in enumerate(reversed(s.fields))]
        out.append(Struct(s.name + suffix, fs, s.numbering, s.size_bytes, s.endian))
    return out


def auto_alphabet():
    inner = inner_struct(12)
    return [Bool(), Int("u8", 3), Nat("u8"), Int("i16", 11), Nat("i16"), Int("u32", 24), Nat("u32"), Res(0, 5), Res(1, 9),
            (Nest(inner), 12), (Bool(), None, 3), (Int("u16", 10), None, 2), (enum_small("AE"), 4)]


def inner_struct(w, name=None, endian="lsb"):
    """a structure of w significant bits, right aligned in its bytes"""
    nb = (w + 7) // 8
    lead = nb * 8 - w
    a = w // 3 or 1
    fs = [Field(int_elem(a, False, False), lead, ew=a)]
    if w - a > 0:
        fs.append(Field(int_elem(w - a, True, False) if w - a <= 64 else Res(1, w - a), lead + a, ew=w - a))
    return Struct(name or "In%d" % w, fs, endian=endian)


def enum_small(name, catch_all=False):
    return Enum(name, "u8", [("A", "0", 0), ("B", "3", 3), ("C", None, 4), ("D", "0x0F", 15)], catch_all)


def auto_sequences(prefix, alphabet, depth, endian="lsb", total_multiple=True):
    """every sequence of `depth` alphabet elements, placed automatically one after another"""
    out = []
    for i, seq in enumerate(itertools.product(range(len(alphabet)), repeat=depth)):
        pos, fields = 0, []
        for k, ai in enumerate(seq):
            a = alphabet[ai]
            el, ew, count = (a, None, None) if isinstance(a, Elem) else (a + (None,) * (3 - len(a)))
            # alternately purely automatic and an open-ended start after a gap
            f = Field(el, pos, ew=ew, count=count, pos="next")
            fields.append(f)
            pos = f.end + 1
        size = None
        if pos % 8:
            # the first field may not be automatic then, or the size is explicit
            if i % 2:
                fields[0].pos = "open"
            else:
                size = (pos + 7) // 8
        out.append(Struct("%s%d" % (prefix, i), fields, endian=endian if i % 3 else "msb", size_bytes=size))
    return out


def mixed_open(prefix, alphabet, gaps, depth=2, endian="lsb"):
    """sequences with an explicit open-ended start or a range after a gap, then an automatic field"""
    out = []
    i = 0
    for seq in itertools.product(range(len(alphabet)), repeat=depth):
        for g in gaps:
            pos, fields = g, []
            for k, ai in enumerate(seq):
                a = alphabet[ai]
                el, ew, count = (a, None, None) if isinstance(a, Elem) else (a + (None,) * (3 - len(a)))
                f = Field(el, pos, ew=ew, count=count, pos=("open", "next", "range", "open:")[(i + k) % 4] if k else ("open", "range")[i % 2])
                fields.append(f)
                pos = f.end + 1 + (g if fields[-1].pos != "next" and k + 1 < depth and (i + k + 1) % 4 != 1 else 0)
            out.append(Struct("%s%d" % (prefix, i), fields, endian=endian if i % 3 else "msb"))
            i += 1
    return out


def far(prefix, offsets, numbering="msb0"):
    """fields of assorted kinds deep inside a large structure"""
    out = []
    kinds = [(Nat("u16"), 16, "msb"), (Nat("i32"), 29, "lsb"), (Int("u8", 5), 5, None), (Bool(), 1, None), (Int("u64", 61), 61, "lsb"), (Nat("i64"), 64, "msb"), (Res(1, 19), 19, None)]
    for i, o in enumerate(offsets):
        fields = [Field(Nat("u8"), 0, ew=8)]
        pos = o
        for k in range(3):
            el, w, e = kinds[(i + k * 2) % len(kinds)]
            f = Field(el, pos, ew=w, endian=e)
            fields.append(f)
            pos = f.end + 1
        size = (pos + 7) // 8 + (i % 2) if numbering == "lsb0" else None
        out.append(Struct("%s%d" % (prefix, i), fields, numbering=numbering, size_bytes=size))
    return out


def deep(prefix):
    """assorted fields near the beginning, in the middle and at the end of structures of 1 to 32 kB, both numberings"""
    out = []
    for i, bits in enumerate((8192, 16381, 32779, 65533, 131081, 262141)):
        for numbering in ("msb0", "lsb0"):
            fs, size = [], bits // 8 + 12
            for k, at in enumerate((3, bits // 2 + i, bits + 1)):
                fs += [Field(Nat("u16"), at, ew=11, endian=("lsb", "msb")[(i + k) % 2]), Field(Bool(), at + 11), Field(Int("i32", 21), at + 12, ew=21, endian=("msb", "lsb")[(i + k) % 2]), Field(Int("u8", 3), at + 33, ew=3, count=3), Field(Res(1, 5), at + 43)]
            out.append(Struct("%s%s%d" % (prefix, numbering[0], i), fs, numbering=numbering, size_bytes=size))
    return out


def endings(prefix, tails):
    """two fields of every pair of kinds, declared in either order, where the later one is 1 to 17 bits wide:
    the size follows from the last bit, whatever was declared last"""
    kinds = [lambda w: (Nat("u32") if w > 16 else Nat("u16") if w > 8 else Nat("u8"), w, None),
             lambda w: (Int("u32", w), w, None) if w > 16 else (Int("u16", w), w, None) if w > 8 else (Int("u8", w), w, None),
             lambda w: (Bool(), w, None) if w < 9 else None, lambda w: (Bool(), 1, w), lambda w: (Nat("u8"), w // 2, 2) if w % 2 == 0 and w < 17 else (Nat("u8"), w, 1) if w < 9 else None,
             lambda w: (Res(w % 2, w), w, None), lambda w: (enum_small("EndE"), w, None) if 4 <= w <= 8 else None, lambda w: (Nest(inner_struct(w)), w, None) if w in (4, 7, 8, 12, 16) else None]
    out, i = [], 0
    for a, b, w in itertools.product(range(len(kinds)), range(len(kinds)), tails):
        y = kinds[b](w)
        x = kinds[a]((4, 11, 8, 12, 7, 16)[i % 6]) or kinds[a](8)
        if y is None or x is None:
            continue
        gap = (0, 0, 1, 3)[i % 4]
        at = (0, 3, 0, 5)[i % 4]
        fx = Field(x[0], at, ew=x[1], count=x[2])
        fy = Field(y[0], fx.end + 1 + gap, ew=y[1], count=y[2])
        fs = [fy, fx] if i % 3 else [fx, fy]
        for k, f in enumerate(fs):
            f.name = "f%d" % k
        out.append(Struct("%s%d" % (prefix, i), fs, endian=("msb", "lsb")[i % 2]))
        i += 1
    return out


# ---------------------------------------------------------------- enums
def wide_enum(prim, name, catch_all=False, style=0):
    """an enum over the whole range of its backing type, with implicit continuations"""
    n = int(prim[1:])
    if prim[0] == "i":
        lo, hi = -(1 << (n - 1)), (1 << (n - 1)) - 1
        v = [("Lo", str(lo), lo), ("LoNext", None, lo + 1), ("Neg", "-2", -2), ("NegNext", None, -1), ("Zero", None, 0), ("One", "1", 1), ("Hi", hex(hi), hi)]
    else:
        hi = (1 << n) - 1
        v = [("Zero", None, 0), ("One", None, 1), ("Five", "5", 5), ("Six", None, 6), ("Top", hex(1 << (n - 1)), 1 << (n - 1)), ("Hi", str(hi), hi)]
    return Enum(name, prim, v, catch_all)


def slot_enum(prim, w, name, catch_all=False):
    """an enum whose discriminants all fit a slot of w bits"""
    if prim[0] == "i":
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        vals = sorted(set([lo, hi, 0, -1, 1 if hi >= 1 else 0, lo // 2, hi // 2]))
    else:
        hi = (1 << w) - 1
        vals = sorted(set([0, hi, 1, hi // 2, hi // 2 + 1 if hi > 1 else 0, min(hi, 0xA5)]))
    vals = [x for x in vals if not (prim[0] == "u" and x < 0)]
    # leave holes: drop one value where there is room
    if len(vals) > 3:
        vals = vals[:1] + vals[2:]
    v, prev = [], None
    for i, x in enumerate(vals):
        implicit = prev is not None and x == prev + 1
        v.append(("V%d" % i, None if implicit else str(x), x))
        prev = x
    return Enum(name, prim, v, catch_all)


PRIMS = ["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64"]


def enum_sweep(prefix, offsets, endians=("msb", "lsb"), per=5, widths=None, numbering="msb0"):
    out, combos = [], []
    for prim in PRIMS:
        for w in range(*{8: (1, 9), 16: (9, 17), 32: (17, 33), 64: (33, 65)}[int(prim[1:])]):
            if widths is not None and w not in widths:
                continue
            for ca in (False, True):
                for e in endians:
                    if w <= 8 and e != endians[0]:
                        continue
                    for o in offsets:
                        combos.append((prim, w, ca, e, o))
    cache = {}
    for gi in range(0, len(combos), per):
        pos, fields = 0, []
        for k, (prim, w, ca, e, o) in enumerate(combos[gi:gi + per]):
            key = (prim, w, ca)
            if key not in cache:
                style = w % 3 == 0
                en = wide_enum(prim, "W%s%d" % (prim, w)) if style else slot_enum(prim, w, "N%s%d" % (prim, w))
                if ca:
                    en2 = Enum(en.name + "C", en.prim, en.variants, True)
                    # same enum type, wrapped
                    en2.name = en.name + "C"
                    en2.rust = "EnumCatchAll<%s>" % en2.name
                    en = en2
                cache[key] = en
            start = pos + (o - pos) % 8
            fields.append(Field(cache[key], start, ew=w, endian=e))
            pos = start + w
        size = (pos + 7) // 8 if numbering == "lsb0" else None
        out.append(Struct("%s%d" % (prefix, gi // per), fields, numbering=numbering, size_bytes=size))
    return out


def sparse_enums(prefix, offsets, numbering="msb0", widths=(3, 8, 11, 16, 20, 24, 32, 40, 45, 48, 56, 63, 64)):
    """enums of one or two variants, so that all zeros, all ones and most patterns are undeclared"""
    out = []
    for prim in PRIMS:
        for w in widths:
            if w not in range(*{8: (1, 9), 16: (9, 17), 32: (17, 33), 64: (33, 65)}[int(prim[1:])]):
                continue
            pos, fields = 0, []
            for k, o in enumerate(offsets):
                vs = ([0], [1], [1, 2], [2], [0, 2 ** (w - 1) - 1])[(w + k) % 5] if prim[0] == "u" or (w + k) % 2 else ([0], [-2], [-2, 1], [-1], [0, -2 ** (w - 1)])[(w + k) % 5]
                en = Enum("%s%s%d_%d" % (prefix, prim, w, k), prim, [("V%d" % i, str(v), v) for i, v in enumerate(vs)], False)
                start = pos + (o - pos) % 8
                if start > pos:
                    fields.append(Field(Nat("u8"), pos, ew=start - pos))
                fields.append(Field(en, start, ew=w, endian=("msb", "lsb")[k % 2]))
                pos = start + w
            out.append(Struct("%s%s_%d" % (prefix, prim, w), fields, numbering=numbering, size_bytes=(pos + 7) // 8 if numbering == "lsb0" else None))
    return out


def bool_slots(prefix):
    """bools in slots of 1..8 bits at every offset, alone and between other fields"""
    out = []
    for w in range(1, 9):
        for o in range(8):
            fs = [Field(Bool(), o + 8, ew=w)]
            if o:
                fs.insert(0, Field(Nat("u8"), 0, ew=8))
            out.append(Struct("%s%d_%d" % (prefix, w, o), fs, size_bytes=3))
    return out


# ---------------------------------------------------------------- reserved
def reserved_sweep(prefix, widths, offsets, per=2, mixed=True):
    out, i = [], 0
    combos = [(w, o, one) for w in widths for o in offsets for one in (False, True)]
    names = {False: ["ReservedZero", "ReservedZeroes"], True: ["ReservedOne", "ReservedOnes"]}
    for g in range(0, len(combos), per):
        pos, fields = 0, []
        for k, (w, o, one) in enumerate(combos[g:g + per]):
            if mixed and (o - pos) % 8 == 0 and pos == 0 and o == 0:
                pos = 0
            start = pos + (o - pos) % 8
            if mixed and start - pos > 0:
                fields.append(Field(Nat("u8"), pos, ew=start - pos))
            fields.append(Field(Res(one, w, names[one][i % 2]), start))
            pos = start + w
            if mixed:
                tail = (8 - pos % 8) % 8 or 3
                fields.append(Field(Nat("i8"), pos, ew=tail))
                pos += tail
            i += 1
        out.append(Struct("%s%d" % (prefix, g // per), fields))
    return out


# ---------------------------------------------------------------- arrays
def array_elems():
    a = [Nat("u8"), Nat("i8"), Bool(), Int("u8", 3), Int("i8", 5), Nat("u16"), Nat("i16"), Int("u16", 11), Int("i32", 19), Nat("u32"), Int("u32", 24),
         Nat("i64"), Int("u64", 37), Int("i64", 60), Nat("u64"), Res(0, 3), Res(1, 10),
         enum_small("AE1"), enum_small("AE2", True), slot_enum("i16", 13, "AE3"), wide_enum("u32", "AE4", True)]
    return a


def array_sweep(prefix, lengths, offsets, numbering="msb0", endians=("msb", "lsb"), elems=None):
    out, i = [], 0
    inner = [Nest(inner_struct(w)) for w in (4, 7, 8, 12, 16, 21)]
    for el in (elems or array_elems()) + inner:
        if isinstance(el, Nest):
            ews = [int(el.s.name[2:])]
        elif el.width is None:
            ews = [w for w in (4, 6, 8, 13, 16, 25, 32) if w in el.slot]
        elif el.slot is not None and el.width > 1:
            ews = [el.width, el.slot[0], el.slot[len(el.slot) // 2]]
        elif isinstance(el, Bool):
            ews = [1, 3]
        else:
            ews = [el.width]
        for ew in ews:
            for n in lengths:
                for o in offsets:
                    for e in (endians if el.endianful and ew > 8 else endians[:1]):
                        fields = []
                        if o:
                            fields.append(Field(Nat("u8"), 0, ew=min(o, 8)))
                        # how the array's size is given: range, per element, implied
                        how = i % 3
                        f = Field(el, o, ew=ew, count=n, endian=e)
                        if numbering == "msb0":
                            if how == 1:
                                f.pos = "open" if i % 2 else "open:"
                                if ew % 8 == 0 and i % 4 == 1:
                                    f.extra = ("bytes",)
                            elif how == 2 and (o == 0 or o <= 8):
                                if o == 0 and (n * ew + 5) % 8 != 0:
                                    f.pos = "open"
                                else:
                                    f.pos = "next"
                        fields.append(f)
                        end = o + ew * n
                        fields.append(Field(Nat("i8"), end, ew=5, pos="range"))
                        size = (end + 5 + 7) // 8 + i % 2
                        out.append(Struct("%s%d" % (prefix, i), fields, numbering=numbering, size_bytes=size if numbering == "lsb0" else None))
                        i += 1
    return out


def long_arrays(prefix, thorough):
    """arrays around 64, 128, 256 and 512 elements, each beside a field before and after"""
    out = []
    kinds = [(Bool(), 1), (Nat("u8"), 8), (Int("u8", 3), 3), (Nat("i16"), 16), (enum_small("LgE"), 4)] + ([(Int("u16", 13), 13), (Res(1, 5), 5), (Nest(inner_struct(12)), 12)] if thorough else [])
    for i, n in enumerate((64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 513, 1025) if thorough else (65, 129, 255, 256, 257, 300)):
        for k, (el, w) in enumerate(kinds):
            if not thorough and n != 257 and (i + k) % 3:
                continue
            for numbering in ("msb0", "lsb0") if thorough or n == 257 else ("msb0",):
                o = (i + 3 * k) % 8
                fs = ([Field(Nat("u8"), 0, ew=o)] if o else []) + [Field(el, o, ew=w, count=n, endian=("msb", "lsb")[k % 2], pos="open" if numbering == "msb0" and k % 2 else "range"), Field(Nat("u8"), o + n * w, ew=5)]
                out.append(Struct("%s%d_%d%s" % (prefix, n, k, numbering[0]), fs, numbering=numbering, size_bytes=(o + n * w + 12) // 8 if numbering == "lsb0" else None))
    return out


# ---------------------------------------------------------------- nesting
def nested_sweep(prefix, widths, offsets, numbering="msb0"):
    """inner structures of every width, in slots of exactly their significant width, and of all narrower or
    wider widths that have the same number of bytes, at every offset; three levels deep"""
    out, i = [], 0
    for w in widths:
        inn = inner_struct(w, endian=("msb", "lsb")[w % 2])
        nb = inn.nbytes * 8
        for o in offsets:
            for sw in sorted(set([w, nb, nb - 7 if nb > 7 else 1, (w + nb) // 2])):
                fields = []
                if o:
                    fields.append(Field(Bool(), o - 1, ew=1))
                fields.append(Field(Nest(inn), o, ew=sw, pos=("range", "open")[i % 2] if numbering == "msb0" else "range"))
                fields.append(Field(Nat("u8"), o + sw, ew=3))
                size = (o + sw + 3 + 7) // 8 if numbering == "lsb0" else None
                s1 = Struct("%s%d" % (prefix, i), fields, numbering=numbering, size_bytes=size)
                out.append(s1)
                if i % 4 == 0:
                    # another level: the structure above inside one more, in its full byte width
                    t = s1.nbytes * 8
                    s2 = Struct("%s%dL2" % (prefix, i), [Field(Nat("u8"), 0, ew=5), Field(Nest(s1), 5, ew=t), Field(Nest(inn), 5 + t, ew=w)])
                    out.append(s2)
                    if i % 8 == 0:
                        s3 = Struct("%s%dL3" % (prefix, i), [Field(Bool(), 0, ew=1), Field(Nest(s2), 2, ew=s2.nbytes * 8, count=2, pos="open"), Field(Nest(s1), 2 + s2.nbytes * 16, ew=t)])
                        out.append(s3)
                i += 1
    return out


def alias_sweep(prefix, sizes, offsets):
    out, i = [], 0
    for n in sizes:
        for o in offsets:
            for sw in sorted(set([8 * n, 8 * n - 3, 8 * n - 7])):
                if sw < 1:
                    continue
                fs = [Field(Alias(n), o, ew=sw, pos=("range", "open")[i % 2]), Field(Nat("u8"), o + sw, ew=4)]
                if o:
                    fs.insert(0, Field(Nat("u8"), 0, ew=min(o, 8)))
                out.append(Struct("%s%d" % (prefix, i), fs))
                i += 1
                out.append(Struct("%sa%d" % (prefix, i), [Field(Alias(n), o, ew=sw, count=3)]))
                i += 1
    return out


def wide_inner(w):
    """a structure of w significant bits, right aligned, of assorted fields of up to 64 bits"""
    nb = (w + 7) // 8
    pos, fs, k = nb * 8 - w, [], 0
    while pos < nb * 8:
        x = min((64, 13, 40, 1, 7, 32, 59)[k % 7], nb * 8 - pos)
        fs.append(Field(Bool() if x == 1 else int_elem(x, k % 3 == 1, k % 2 == 0), pos, ew=x, endian=("msb", "lsb")[k % 2]))
        pos += x
        k += 1
    return Struct("Wi%d" % w, fs)


def wide(prefix, sizes, offsets, numbering="msb0", arrays=True):
    """fields of many bytes: byte arrays and nested structures, aligned and not, alone and in arrays, in slots as wide
    as the type's bytes and up to 7 bits narrower"""
    out, i = [], 0
    for n in sizes:
        for o in offsets:
            for cut in (0, 3, 7):
                sw = 8 * n - cut
                for el in (Alias(n), Nest(wide_inner(8 * n - (n % 8)))):
                    i += 1
                    if isinstance(el, Nest) and (cut + o + n) % 2:
                        continue
                    fs = [Field(el, o, ew=sw, pos=("range", "open")[i % 2] if numbering == "msb0" else "range"), Field(Nat("u8"), o + sw, ew=4)]
                    if o:
                        fs.insert(0, Field(Nat("u8"), 0, ew=min(o, 8)))
                    for k, f in enumerate(fs):
                        f.name = "f%d" % k
                    end = o + sw + 4
                    out.append(Struct("%s%d" % (prefix, i), fs, numbering=numbering, size_bytes=(end + 7) // 8 + i % 2 if numbering == "lsb0" else None))
                    if arrays and cut != 3:
                        out.append(Struct("%sa%d" % (prefix, i), [Field(el, o, ew=sw, count=2)], numbering=numbering, size_bytes=(o + 2 * sw + 7) // 8 if numbering == "lsb0" else None))
    return out


# ---------------------------------------------------------------- mixtures
def mixtures(prefix, numbering="msb0", offsets=range(8), depth=2):
    """every ordered tuple of `depth` field kinds out of a broad alphabet, explicitly placed with a lead of
    every offset and one unclaimed bit between them when the tuple's index is odd"""
    inner = inner_struct(13)
    alpha = [(Bool(), 1, None), (Bool(), 2, None), (Nat("u8"), 7, None), (Nat("i16"), 12, None), (Int("u32", 27), 27, None), (Nat("i64"), 51, None), (Res(1, 6), 6, None), (Res(0, 11), 11, None),
             (Nest(inner), 13, None), (Nat("u8"), 4, 3), (Nat("u16"), 10, 2), (enum_small("MixE"), 4, None), (enum_small("MixC", True), 5, None), (slot_enum("i16", 11, "MixS"), 11, None),
             (wide_enum("i32", "MixW", True), 23, None), (Alias(3), 24, None), (Nat("u64"), 64, None)]
    out, i = [], 0
    for seq in itertools.product(range(len(alpha)), repeat=depth):
        o = offsets[i % len(offsets)]
        pos, fields = o, []
        for k, ai in enumerate(seq):
            el, w, n = alpha[ai]
            f = Field(el, pos, ew=w, count=n)
            fields.append(f)
            pos = f.end + 1 + (i % 2)
        if i % 5 == 3:
            fields = fields[::-1]
        for k, f in enumerate(fields):
            f.name = "f%d" % k
        size = (max(f.end for f in fields) + 8) // 8 + (i % 3 == 2) if numbering == "lsb0" or i % 3 == 2 else None
        out.append(Struct("%s%d" % (prefix, i), fields, numbering=numbering, size_bytes=size, endian=("msb", "lsb")[i // 2 % 2]))
        i += 1
    return out


def many_fields(prefix, numbering="msb0"):
    out = []
    kinds = [(Nat("u8"), 8), (Nat("i8"), 8), (Nat("u16"), 16), (Nat("i16"), 16), (Nat("u32"), 32), (Nat("i32"), 32)]
    for v in range(4):
        pos, fields = 0, []
        for i in range(24):
            w = (i * (5 + 2 * v) + 3 * v) % 29 + 1
            if v == 3 and w % 4 == 0:
                fields.append(Field(Nat("u8"), pos, ew=3, count=w // 4))
            elif w == 1:
                fields.append(Field(Bool(), pos))
            else:
                fields.append(Field(int_elem(w, (i + v) % 3 == 0, i % 2 == 0), pos, ew=w, endian=(None, "lsb", "msb")[i % 3]))
            pos = fields[-1].end + 1 + (i % 5 == v)
        out.append(Struct("%s%d" % (prefix, v), fields, numbering=numbering, size_bytes=(pos + 7) // 8 if numbering == "lsb0" else None, endian=("msb", "lsb")[v % 2]))
    return out


def shuffled_names(prefix, counts=(9, 13, 17, 26)):
    """automatically placed fields whose names are in no order, of every length of name, with the types in another order still"""
    out = []
    letters = "zamcybxdwevfugthsirjqkplon"
    for n in counts:
        for v in range(4):
            fs = []
            for i in range(n):
                l = letters[(i * (1, 3, 5, 7)[v]) % 26] if v < 2 else letters[i]
                nm = (l, l.upper() if i % 3 else l, "f%d" % ((i * 7) % n if n % 7 else n - i), "_" * (i % 3) + l + letters[i] * (n - i))[v]
                if nm in [f.name for f in fs]:
                    nm = nm + "q"
                el, w = ((Nat("u8"), 8), (int_elem(5, i % 2 == 0, False), 5), (Nat("i16"), 16), (Bool(), 1), (int_elem(11, False, True), 11))[(i * 2 + v) % 5]
                start = fs[-1].end + 1 if fs else 0
                fs.append(Field(el, start, ew=w, endian="lsb" if w > 8 else None, pos="open" if i == 0 else "next", name=nm))
            out.append(Struct("%s%d_%d" % (prefix, n, v), fs))
    return out


def lots(prefix, counts, numbering="msb0"):
    """structures of very many small fields"""
    out = []
    for k, n in enumerate(counts):
        pos, fields = 0, []
        for i in range(n):
            w = (1, 3, 1, 2, 9, 1, 5)[(i + k) % 7]
            if w == 1:
                fields.append(Field(Bool(), pos))
            elif w == 5 and i % 2:
                fields.append(Field(Res(i // 2 % 2, 5), pos))
            elif w == 2 and i % 3 == 0:
                fields.append(Field(Bool(), pos, count=2))
            else:
                fields.append(Field(int_elem(w, i % 3 == 0, i % 2 == 0), pos, ew=w, endian=(None, "lsb", "msb")[i % 3]))
            pos = fields[-1].end + 1 + (i % 11 == 10)
        out.append(Struct("%s%d" % (prefix, n), fields, numbering=numbering, size_bytes=(pos + 7) // 8 if numbering == "lsb0" else None, endian=("msb", "lsb")[k % 2]))
    return out


def lsb0_notations(prefix):
    """every spelling of an LSB0 position of every (width, offset mod 8) up to 20 bits, with 0..2 spare bytes"""
    out, i = [], 0
    for w in range(1, 21):
        for o in range(8):
            for sp in ("hilo", "lohi", "hilo=", "lohi=", "excl") + (("single",) if w == 1 else ()) + (("byteshilo", "byteslohi") if w == 16 else ()) + (("byte",) if w == 8 else ()):
                nb = (o + w + 7) // 8 + i % 3
                # o is the distance from the most significant end
                f = Field(int_elem(w, i % 2 == 1, i % 4 < 2), o, ew=w, endian=("msb", "lsb")[i // 2 % 2], pos=sp)
                if sp.startswith("byte") and (nb * 8 - 1 - f.end) % 8:
                    continue
                out.append(Struct("%s%d" % (prefix, i), [f], numbering="lsb0", size_bytes=nb))
                i += 1
    return out


# ---------------------------------------------------------------- endianness
SPELL = {"msb": ["msb", "MSB", "Msb", "be", "BE", "Be"], "lsb": ["lsb", "LSB", "lSb", "le", "LE", "Le"]}


def endian_sweep(prefix, widths, offsets, numbering="msb0"):
    """field endianness x structure default x spelling, for every width, over integers, Integers, arrays and enums"""
    out, i = [], 0
    cache = {}

    def elem(k, w):
        if k in (0, 1):
            return int_elem(w, k == 1, True), None
        if k in (2, 3):
            return int_elem(w, k == 3, False), None
        if k == 4:
            return int_elem(w, i % 2 == 0, i % 4 < 2), 2
        prim = ("u%d" if w % 2 else "i%d") % native_bits(w)
        key = (prim, w, k)
        if key not in cache:
            cache[key] = slot_enum(prim, w, "EN%s_%d_%d" % (prim, w, k), k == 6)
        return cache[key], None
    for w in widths:
        modes = [(f, d) for f in (None, "msb", "lsb") for d in (None, "msb", "lsb")]
        for fe, de in modes:
            if w > 8 and fe is None and de is None:
                continue
            fields, pos = [], 0
            for k in range(7):
                o = offsets[(i + k) % len(offsets)]
                el, cnt = elem(k, w)
                fs = None if fe is None else SPELL[fe][(i + k) % 6]
                start = pos + (o - pos) % 8
                fields.append(Field(el, start, ew=w, count=cnt, endian=fs))
                pos = fields[-1].end + 1
            out.append(Struct("%s%d" % (prefix, i), fields, numbering=numbering, endian=None if de is None else SPELL[de][i % 6],
                              size_bytes=(pos + 7) // 8 if numbering == "lsb0" else None))
            i += 1
    return out


# ---------------------------------------------------------------- names
NAMES = ["src", "target", "packed", "bytes", "b", "x", "x_0", "x_1", "i", "s", "self_", "result", "value", "Ok", "Err", "Some", "None", "Result", "packed_struct",
         "_a", "__", "r#type", "r#match", "u8", "bits", "r#mod", "T", "PackingError", "slice", "buf", "index", "field", "name", "dst", "data", "output", "temp", "len", "r", "e", "Self_", "f_0_0", "gr\u00f6\u00dfe"]


def name_pairs(prefix, names=NAMES):
    """every name alone on a scalar and on an array; every ordered pair of names, first as array / second as scalar and vice versa"""
    out, i = [], 0
    for a in names:
        for b in names:
            if a == b:
                continue
            if i % 2:
                fs = [Field(Int("u8", 3), 0, count=2, name=a), Field(Nat("u16"), 6, ew=12, endian="lsb", name=b)]
            else:
                fs = [Field(Nat("i16"), 0, ew=11, endian="msb", name=a), Field(Nat("u8"), 11, ew=4, count=3, name=b), Field(Bool(), 23, name="z")]
            out.append(Struct("%s%d" % (prefix, i), fs))
            i += 1
    return out


WORDS = ["_pad", "_padding", "_padding2", "pad", "padding", "_reserved", "_reserved_0", "reserved", "reserved1", "_unused", "unused", "_unknown", "_x", "_0", "_1", "__a", "___", "_Z", "crc", "checksum", "len", "length", "count", "size", "size_bytes",
         "size_bits", "bits", "bytes", "ty", "endian", "msb", "lsb", "lsb0", "kind", "tag", "id", "magic", "version", "flags", "mode", "body", "payload", "header", "footer", "skip", "ignore", "default", "phantom", "pack", "unpack", "packed_bits",
         "packed_bytes", "fmt", "from", "into", "new", "clone", "eq", "min", "max", "mask", "shift", "offset", "range", "start", "end", "first", "last", "prev", "next", "tail", "main", "std", "core", "vec", "array", "string", "option", "a", "A", "ABC",
         "camelCase", "snake_case_name", "a1", "a_1", "a__b", "r#fn", "r#struct", "r#use", "r#async", "r#dyn", "r#union", "r#_x", "\u03b1", "\u540d", "a" * 64, "_" + "b" * 200]


def name_words(prefix, words=WORDS):
    """every word naming a field of each kind, beside plainly named neighbours"""
    out, i = [], 0
    for nm in words:
        for k, mk in enumerate([lambda: (Res(1, 5), 5, None, None), lambda: (Res(0, 5), 5, None, None), lambda: (Int("i16", 13), 13, None, "lsb"), lambda: (Nat("u32"), 32, None, "msb"), lambda: (Bool(), 1, None, None), lambda: (enum_small("WordE"), 6, None, None),
                                lambda: (enum_small("WordC", True), 8, None, None), lambda: (Nest(inner_struct(11)), 11, None, None), lambda: (Nat("u8"), 3, 3, None), lambda: (Res(1, 3), 3, 2, None)]):
            el, w, c, e = mk()
            n = w * (c or 1)
            o = (i * 3) % 8
            fs = ([Field(Nat("u8"), 0, ew=o, name="before")] if o else []) + [Field(el, o, ew=w, count=c, endian=e, name=nm), Field(Nat("u8"), o + n, ew=6, name="after")]
            out.append(Struct("%s%d_%d" % (prefix, i, k), fs))
        i += 1
    return out


STYLES = ["split", "two", "rot1", "rot2", "reversed", "raw", "hash", "escape", "spaces", "comments", "trail", "bare", "cfg", "docs", "private", "crate", "self", "derives", "derive2", "lints", "upper", "turbofish", "wide types", "commas", "padded", "hex width", "octal width", "suffixed width", "brace width", "underscored width", "len", "last", "redundant"]


def styles(prefix, pairs=False):
    """the same layouts in every spelling that means the same to Rust, and (pairs) in every two of them together"""
    inner = inner_struct(12)
    e, c = slot_enum("u16", 11, "StyE"), enum_small("StyC", True)
    out = []
    sets = [(x,) for x in STYLES] + ([x for x in itertools.combinations(STYLES, 2)] if pairs else [("split", "docs", "cfg"), ("spaces", "comments", "trail"), ("wide types", "len", "last"), ("turbofish", "raw", "two", "docs")])
    clash = [{"rot1", "rot2"}, {"raw", "hash"}, {"raw", "escape"}, {"hash", "escape"}, {"private", "crate"}, {"private", "self"}, {"crate", "self"}, {"derives", "derive2"}, {"trail", "bare"}, {"turbofish", "padded"}, {"split", "two"}, {"spaces", "padded"}] + [{a, b} for a in STYLES for b in STYLES if a < b and (a.endswith(" width") or a == "padded") and (b.endswith(" width") or b == "padded")]
    for i, st in enumerate(sets):
        if any(x <= set(st) for x in clash):
            continue
        for numbering in ("msb0", "lsb0"):
            fs = [Field(Int("u16", 11), 3, endian="lsb"), Field(Nat("i32"), 14, ew=29, endian="be"), Field(Nat("u8"), 43, ew=5, count=2), Field(e, 53, ew=11, endian="le"), Field(c, 64, ew=8), Field(Bool(), 72), Field(Res(1, 6), 73), Field(Nest(inner), 79, ew=12), Field(Int("i8", 3), 91, count=3)]
            out.append(Struct("%s%d%s" % (prefix, i, numbering[0]), fs, numbering=numbering, size_bytes=15 if numbering == "lsb0" or i % 2 else None, style=st))
        fs = [Field(Res(0, 3), 0, pos="open"), Field(Int("u16", 11), 3, endian="lsb", pos="next"), Field(Nat("i32"), 14, ew=29, endian="MSB", pos="next"), Field(Nat("u8"), 43, ew=5, count=2, pos="next"), Field(e, 53, ew=11, pos="open:"), Field(c, 64, ew=8, pos="bytes"), Field(Nest(inner), 72, ew=16, pos="bytesopen", extra=("bytes",)), Field(Nat("i16"), 88, ew=16, count=10, pos="next", endian="lsb", extra=("bytes",)), Field(Bool(), 250, count=3, pos="open")]
        out.append(Struct("%s%da" % (prefix, i), fs, endian="Le", style=st))
    return out


def name_suffixes(prefix):
    """an array beside fields that look like its elements, in both orders and with nested suffixes"""
    out, i = [], 0
    for base in ("x", "_x", "x_0", "src", "b"):
        for n in (1, 2, 3):
            for k in range(n + 1):
                for order in (0, 1):
                    for deep in ("%s_%d", "_%s_%d", "%s_%d_0", "%s%d", "__%s_%d"):
                        nm = deep % (base, k)
                        fs = [Field(Nat("u8"), 3, ew=5, count=n, name=base), Field(Nat("u8"), 3 + 5 * n, ew=7, name=nm)]
                        if nm == base:
                            continue
                        if order:
                            fs = fs[::-1]
                        out.append(Struct("%s%d" % (prefix, i), fs))
                        i += 1
    return out


def permutations(prefix):
    """every declaration order of four or five explicitly placed fields"""
    out, i = [], 0
    inner = inner_struct(11)
    bases = [
        [(Nat("u8"), 0, 3, None, None), (Nat("i16"), 3, 13, None, "lsb"), (Bool(), 17, 1, None, None), (Int("u32", 27), 20, 27, None, "msb")],
        [(Nat("u8"), 1, 4, 3, None), (Nest(inner), 13, 11, None, None), (Res(1, 5), 25, 5, None, None), (enum_small("PermE"), 30, 6, None, None)],
        [(Nat("u64"), 0, 64, None, "lsb"), (Nat("u16"), 64, 16, 2, "msb"), (Nat("i8"), 96, 7, None, None), (enum_small("PermC", True), 104, 8, None, None), (Bool(), 103, 1, None, None)],
    ]
    for bi, base in enumerate(bases):
        for numbering in ("msb0", "lsb0"):
            for perm in itertools.permutations(base):
                fs = [Field(el, st, ew=w, count=c, endian=e, name="p%d" % k) for k, (el, st, w, c, e) in enumerate(perm)]
                last = max(f.end for f in fs) + 1
                out.append(Struct("%s%d" % (prefix, i), fs, numbering=numbering, size_bytes=(last + 7) // 8 + bi % 2 if numbering == "lsb0" else None))
                i += 1
    return out


def bigger_sizes(prefix):
    """explicit sizes, exact and larger, with and without fields reaching the end; single fields of every width"""
    out, i = [], 0
    for numbering in ("msb0", "lsb0"):
        for w in range(1, 41):
            for x in (0, 1, 2, 7):
                nb = (w + 7) // 8 + x
                if x or numbering == "lsb0":
                    out.append(Struct("%s%d" % (prefix, i), [Field(int_elem(w, False, False) if w <= 64 else None, 0, ew=w, endian="msb")], numbering=numbering, size_bytes=nb))
                else:
                    out.append(Struct("%s%d" % (prefix, i), [Field(int_elem(w, False, False), 0, ew=w, endian="msb")]))
                i += 1
    for nb in (1, 2, 31, 32, 33, 64, 100, 128, 255, 256, 257, 300, 511, 512):
        out.append(Struct("%s%d" % (prefix, i), [Field(Nat("u8"), 8 * nb - 8, ew=8)]))
        i += 1
        out.append(Struct("%s%d" % (prefix, i), [Field(Nat("u8"), 0, ew=8)], size_bytes=nb))
        i += 1
        if nb > 1:
            out.append(Struct("%s%d" % (prefix, i), [Field(Nat("u8"), 8 * nb - 11, ew=4)]))
            i += 1
    return out


def reserved_lsb0(prefix, widths):
    out = []
    for i, w in enumerate(widths):
        lead, tail = i % 8, (i * 3) % 7 + 1
        fs = [Field(Res(i % 2, w), lead), Field(int_elem(tail, i % 2 == 0, True), lead + w, ew=tail)]
        if lead:
            fs.append(Field(Nat("u8"), 0, ew=lead))
        for k, f in enumerate(fs):
            f.name = "f%d" % k
        out.append(Struct("%s%d" % (prefix, i), fs, numbering="lsb0", size_bytes=(lead + w + tail + 7) // 8 + i % 2))
    return out


def nested_kinds(prefix, offsets):
    """inner structures of other shapes: LSB0, unaligned ends, reserved, enums, gaps, one bit, many bytes, one inside an array inside another"""
    out, i = [], 0
    e1, e2 = enum_small("NkE"), enum_small("NkC", True)
    inners = [
        Struct("NkLsb", [Field(Nat("u8"), 0, ew=5), Field(Nat("u16"), 5, ew=11, endian="lsb")], numbering="lsb0", size_bytes=2),
        Struct("NkGap", [Field(Nat("u8"), 3, ew=2), Field(Bool(), 9)], size_bytes=2),
        Struct("NkRes", [Field(Res(1, 3), 0), Field(Nat("u8"), 3, ew=5), Field(Res(0, 4), 8), Field(Res(1, 4), 12)]),
        Struct("NkEnum", [Field(e1, 0, ew=4), Field(e2, 4, ew=4), Field(Nat("u8"), 8, ew=8)]),
        Struct("NkBit", [Field(Bool(), 7)], size_bytes=1),
        Struct("NkEnd", [Field(Nat("u16"), 0, ew=10, endian="lsb")]),
        Struct("NkBig", [Field(Nat("u64"), 0, ew=64, endian="lsb"), Field(Nat("u8"), 64, ew=8, count=9), Field(Nat("i32"), 136, ew=32, endian="msb")]),
        Struct("NkArr", [Field(Int("u8", 3), 0, count=5), Field(Bool(), 15)]),
    ]
    for inn in inners:
        for o in offsets:
            n = inn.nbytes * 8
            fs = [Field(Nest(inn), o, ew=n), Field(Int("u8", 5), o + n)]
            if o:
                fs.insert(0, Field(Nat("u8"), 0, ew=o))
            out.append(Struct("%s%d" % (prefix, i), fs))
            out.append(Struct("%sA%d" % (prefix, i), [Field(Bool(), 0), Field(Nest(inn), 1 + o, ew=n, count=3, pos=("range", "open")[i % 2]), Field(Nat("i8"), 1 + o + 3 * n, ew=6)]))
            i += 1
    return out


DECOY_TRAIT = """pub mod decoy {
 pub trait Ext { fn pack(&self) -> u8 { 0 } fn unpack(_: &[u8]) -> u8 { 1 } fn to_primitive(&self) -> u8 { 2 } fn from_primitive(_: u8) -> u8 { 3 } fn packed_bits() -> u8 { 4 } fn packed_bytes_size(_: u8) -> u8 { 5 } }
 impl<T: ?Sized> Ext for T {}
}
use decoy::Ext;
"""


def decoys(prefix, offsets):
    """user types (outer, nested in one another, enums, catch-all) with methods of their own named like those of the packing traits"""
    out, i = [], 0
    for o in offsets:
        for w in (3, 8, 11, 24, 33):
            inn = inner_struct(w, "%sI%d" % (prefix, i))
            inn.style = frozenset(["decoys"])
            e1, e2 = enum_small("%sE%d" % (prefix, i)), slot_enum("i16", 13, "%sC%d" % (prefix, i), True)
            e1.decoys = e2.decoys = True
            n = inn.nbytes * 8
            fs = [Field(Nest(inn), o, ew=n), Field(e1, o + n, ew=5), Field(e2, o + n + 5, ew=13, endian="msb"), Field(Nat("u16"), o + n + 18, ew=9, endian="lsb"), Field(Bool(), o + n + 27), Field(Res(1, 3), o + n + 28)]
            if o:
                fs.insert(0, Field(Nat("u8"), 0, ew=o))
            s = Struct("%s%d" % (prefix, i), fs, style=["decoys"])
            out.append(s)
            t = s.nbytes * 8
            out.append(Struct("%sA%d" % (prefix, i), [Field(Bool(), 0), Field(Nest(s), 1, ew=t), Field(Nest(inn), 1 + t, ew=w, count=2), Field(e1, 1 + t + 2 * w, ew=4, count=3), Field(Alias(3), 13 + t + 2 * w, ew=22)], style=["decoys"]))
            i += 1
    return out


def show_widths(prefix):
    """fields of 1..64 bits beside a narrow one, on both sides of the limit for the bit columns; names of all lengths"""
    out = []
    for w in range(1, 65):
        nm = "n" * (w % 23 + 1)
        fs = [Field(int_elem(w, w % 2 == 0, w % 4 < 2), w % 9, ew=w, endian=("msb", "lsb")[w % 2], name=nm), Field(Nat("u8"), w % 9 + w, ew=w % 8 + 1, name="q%d" % w)]
        out.append(Struct("%s%d" % (prefix, w), fs))
        if w >= 31:
            fs = [Field(Nat("u8"), 0, ew=3, count=2, name="arr"), Field(Nest(inner_struct(w)), 6, ew=w, name="nested")]
            out.append(Struct("%sn%d" % (prefix, w), fs))
    return out


# ---------------------------------------------------------------- notations
def num(n, style):
    return ("%d", "0x%X", " %d", "%d ", "0X%x", "  %d ", "0x%04x", "00%d")[style % 8] % n


RANGE_FORMS = ["%s:%s", "%s..=%s", "~%s:%s", "~%s..=%s", "%s..%s", "%s : %s", "%s ..= %s", " %s .. %s "]


def spelled(key, a, b, form, style):
    """the inclusive range a..b in one of the documented forms; '~' swaps the ends"""
    f = RANGE_FORMS[form]
    x, y = (b, a) if f[0] == "~" else (a, b)
    if ".." in f and "=" not in f:
        y += 1
    return '%s="%s"' % (key, f.lstrip("~") % (num(x, style), num(y, style + style // 8)))


def notation_ranges(prefix, n, step=1, numbering="msb0", styles=8):
    """every range within n bits in every form, alone and followed by an automatic field, number styles rotating"""
    out, k = [], 0
    for a in range(n):
        for b in range(a, n):
            for form in range(len(RANGE_FORMS)):
                for style in ((k,) if styles == 1 else range(8)):
                    k += 1
                    if (k % step):
                        continue
                    w = b - a + 1
                    el = int_elem(w, k % 2 == 1, False) if w <= 64 else Res(1, w)
                    if numbering == "msb0":
                        f = [Field(el, a, ew=w, pos=spelled("bits", a, b, form, style))]
                        if k % 3:
                            f.append(Field(Nat("u8"), b + 1, ew=8, pos="next"))
                        if k % 5 == 0 and a >= 2:
                            f.insert(0, Field(Int("u8", 2), 0, ew=2, pos=('bits="0:"', 'bits="0.."', 'bits="1:0"', 'bits="0..2"')[k % 4]))
                        out.append(Struct("%s%d" % (prefix, len(out)), f, endian=("msb", "lsb")[k % 2]))
                    else:
                        nb = (n + 7) // 8
                        f = [Field(el, nb * 8 - 1 - b, ew=w, pos=spelled("bits", a, b, form, style))]
                        out.append(Struct("%s%d" % (prefix, len(out)), f, numbering="lsb0", size_bytes=nb, endian=("msb", "lsb")[k % 2]))
    return out


def notation_bytes(prefix, n, numbering="msb0"):
    """every range of whole bytes within n in every inclusive form, and single bytes"""
    out, k = [], 0
    for a in range(n):
        for b in range(a, n):
            for form in (0, 1, 2, 3, 5, 6) + ((9,) if a == b else ()):
                for style in range(3):
                    k += 1
                    w = 8 * (b - a + 1)
                    el = Alias(b - a + 1) if k % 3 == 0 else int_elem(w, k % 2 == 1, True) if w <= 64 and w in (8, 16, 32, 64) else Res(1, w)
                    pos = 'bytes="%s"' % num(a, style * 3 + k % 3) if form == 9 else spelled("bytes", a, b, form, style * 3 + k)
                    start = 8 * a if numbering == "msb0" else 8 * (n - 1 - b)
                    f = [Field(el, start, ew=w, pos=pos)]
                    if numbering == "msb0" and k % 2:
                        f.append(Field(Int("u16", 11), f[0].end + 1, ew=11, pos="next"))
                    out.append(Struct("%s%d" % (prefix, len(out)), f, numbering=numbering, size_bytes=n if numbering == "lsb0" else None, endian=("msb", "lsb")[k % 2]))
    return out


def notation_open(prefix, n, big=False):
    """open-ended starts in bits and bytes in every spelling, with the size implied by the type or stated in bits or bytes"""
    out, k = [], 0
    kinds = [(Nat("u8"), 8, None, None), (Nat("i16"), 16, None, None), (Int("u8", 3), 3, None, None), (Bool(), 1, None, None), (Res(1, 13), 13, None, None),
             (Nat("u32"), 32, None, None), (Nat("u16"), 11, None, "bits"), (Nat("u8"), 5, None, "bits"), (Nat("u32"), 24, None, "bytes"), (Alias(3), 24, None, "bytes"), (Alias(2), 12, None, "bits"),
             (Nat("u8"), 8, 3, None), (Int("u16", 10), 10, 2, None), (Bool(), 1, 5, None), (Nat("u8"), 6, 2, "bits"), (Nat("u16"), 16, 2, "bytes"), (Alias(2), 16, 3, "bytes"), (Int("u8", 3), 3, 4, "bits"),
             (Nat("u8"), 8, None, "bytes"), (Int("u64", 40), 40, None, "bytes"), (enum_small("NE"), 4, None, "bits"), (enum_small("NF", True), 8, 2, "bytes"), (Nest(inner_struct(12)), 12, None, "bits"), (Nest(inner_struct(16)), 16, 2, "bytes")]
    for el, w, count, size in kinds:
        for s in range(n):
            for key in ("bits", "bytes"):
                for form in ("%s..", "%s:", " %s.. ", "%s :"):
                    k += 1
                    if not big and (k + s) % 4:
                        continue
                    start = s * (8 if key == "bytes" else 1)
                    if start >= (8 * n):
                        continue
                    extra = []
                    if size:
                        st = k // 4
                        extra.append('%ssize_%s="%s"' % ("element_" if count else "", size, num(w // 8 if size == "bytes" else w, st)))
                    f = [Field(el, start, ew=w, count=count, pos='%s="%s"' % (key, form % num(s, k)), extra=tuple(extra) + (("first",) if k % 7 == 0 else ()))]
                    f.append(Field(Int("u8", 7), f[0].end + 1, ew=7, pos="next"))
                    if k % 3 == 0:
                        f.append(Field(Bool(), f[1].end + 1, ew=1, pos='bits="%d"' % (f[1].end + 1)))
                        f.append(Field(Nat("u8"), f[2].end + 1, ew=8, pos="next"))
                    out.append(Struct("%s%d" % (prefix, len(out)), f, endian=("msb", "lsb")[k % 2]))
    return out


def notation_sizes(prefix, sizes):
    """large sizes stated in bits and in bytes, of fields and of elements, followed by an automatic field"""
    out = []
    for i, n in enumerate(sizes):
        if n <= 300:
            el = Alias(n)
        else:
            el = Nest(Struct("Vast%d" % n, [Field(Int("u16", 11), 4, ew=11, endian="msb"), Field(Bool(), 4 * n + 3, ew=1), Field(Int("i32", 21), 8 * n - 21, ew=21, endian="lsb")]))
        for key, w in (("bits", 8 * n), ("bytes", 8 * n), ("bits", 8 * n - 5)):
            v = num(w // 8 if key == "bytes" else w, i)
            for count in (None, 2):
                if count and n > 10000:
                    continue
                if n > 600 and w % 8:
                    continue
                for lead in ((0, 3) if n <= 300 else (3,) if n <= 600 and (i + w) % 2 else (0,)):
                    f = [Field(el, lead, ew=w, count=count, pos='bits="%d.."' % lead, extra=('%ssize_%s="%s"' % ("element_" if count else "", key, v),))]
                    if not lead and w % 8 == 0:
                        f[0].pos, f[0].extra = "next", f[0].extra + ("nosize",)
                    if not lead and w % 8 == 0:
                        f.append(Field(Nat("i16"), f[0].end + 1, ew=16, pos="next", endian="lsb"))
                    else:
                        f.append(Field(Int("u16", 11), f[0].end + 1, ew=11, pos="next", endian="lsb"))
                    out.append(Struct("%s%d" % (prefix, len(out)), f))
        for count in (None, 2):
            if count and n > 10000:
                continue
            w = 8 * n * (count or 1)
            f = [Field(el, 8 * (i % 3), ew=8 * n, count=count, pos='bytes="%d%s%d"' % (i % 3, (":", "..=")[i % 2], i % 3 + n * (count or 1) - 1)), Field(Int("u16", 11), 8 * (i % 3) + w, ew=11, pos="next", endian="lsb")]
            out.append(Struct("%s%d" % (prefix, len(out)), f))
    return out


def notation_far(prefix, positions):
    """two to five digit positions in each form"""
    out = []
    for i, a in enumerate(positions):
        for form in range(len(RANGE_FORMS)):
            for w in (1, 13):
                f = [Field(int_elem(w, False, False), a, ew=w, pos=spelled("bits", a, a + w - 1, form, i + form))]
                f.append(Field(Nat("u8"), a + w, ew=8, pos="next"))
                out.append(Struct("%s%d" % (prefix, len(out)), f, endian="msb"))
        out.append(Struct("%s%d" % (prefix, len(out)), [Field(Bool(), a, ew=1, pos='bits="%s"' % num(a, i))]))
        if a < 600:
            out.append(Struct("%s%d" % (prefix, len(out)), [Field(Nat("u8"), a * 8, ew=8, pos='bytes="%s"' % num(a, i + 1)), Field(Nat("u8"), a * 8 + 8, ew=8, pos="next")]))
    return out
