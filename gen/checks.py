"""One function per property. Each explores completely the space it states and merges the counts into `res`."""
import itertools, json, os, sys, time
import engine, families as F, enums as EN, verdicts as VD, wellformed as WF
from layout import *

CHECKS = {}


def check(pid, bounds):
    def deco(fn):
        CHECKS[pid] = (fn, bounds)
        return fn
    return deco


def thin(combos_fn, tier, *a, **kw):
    return combos_fn(*a, **kw)


def world(tier, numbering="msb0", prefix="W"):
    """A broad set of layouts of every supported field kind."""
    t = tier == "thorough"
    out = []
    W = range(1, 65)
    if t:
        out += F.scalar_sweep(prefix + "s", W, range(8), numbering=numbering)
    else:
        # every (width, offset mod 8, endian); sign and native/Integer alternate so that each width and
        # each offset meets all four
        out += F.scalar_sweep(prefix + "s", W, range(8), numbering=numbering, rotate=True)
    out += F.mixtures(prefix + "m", numbering)
    out += F.far(prefix + "f", [129, 250, 255, 256, 509, 1020, 2047, 4093] if t else [129, 255, 509], numbering)
    out += F.nested_sweep(prefix + "n", range(3, 41) if t else (3, 8, 12, 16, 21), range(8) if t else (0, 3, 7), numbering)
    out += F.array_sweep(prefix + "a", (1, 2, 3, 5, 7) if t else (2, 3), (0, 1, 3, 7, 8) if t else (0, 3), numbering)
    out += F.enum_sweep(prefix + "e", range(8) if t else (0, 5), numbering=numbering, widths=None if t else (1, 3, 4, 7, 8, 9, 13, 16, 17, 24, 29, 32, 33, 40, 61, 64))
    out += F.sparse_enums(prefix + "u", (0, 5) if not t else (0, 0, 5, 3), numbering)
    out += F.bool_slots(prefix + "b") if numbering == "msb0" else []
    out += F.many_fields(prefix + "q", numbering)
    out += F.lots(prefix + "k", (33, 64, 65, 100, 129, 255, 256, 257, 300) if t else (65, 130, 257), numbering)
    # the thorough tier looks at every number of bytes up to 72
    out += F.wide(prefix + "w", [n for n in range(10, 73) if n % 8 in (0, 1, 7)] + [100, 128, 200, 255, 256] if t else (31, 32, 33, 40, 65), range(8) if t else (0, 1, 4, 7), numbering, arrays=t)
    if t:
        out += F.single_sweep(prefix + "1", W, range(8), numbering)
        if numbering == "msb0":
            out += F.one_byte_structs(prefix + "o")
            out += F.alias_sweep(prefix + "l", (1, 2, 3, 5, 9), range(8))
            out += F.auto_sequences(prefix + "x", F.auto_alphabet(), 2)
    else:
        if numbering == "msb0":
            out += F.alias_sweep(prefix + "l", (1, 3), (0, 5))
    return out


def deep(res, name, modes, tier, **kw):
    """fields thousands of bytes into the structure, counted from either end"""
    engine.codec(res, name, F.deep("D"), modes, "small", shards=6, **kw)


def huge(res, name, mode, tier):
    engine.program(res, name, engine.engine_src("huge.rs"), [[mode, tier]], fail=name)


BROAD = "layouts: one integer field for every width 1..64 x offset mod 8 x byte order (sign and native/Integer alternating; thorough: all combinations), every ordered pair of 17 field kinds, nesting to depth 3, arrays, enums, bool slots, far offsets, structures of 24 and of up to 257 (300) fields; "


@check("C01", BROAD + "values: every leaf over its full range up to 8 (12) bits, else all patterns within Hamming distance 2 of 0/1s and near powers of two, over 5 backgrounds, neighbouring pairs, values wider than the slot; assorted fields at the beginning, the middle and the end of structures of 1 to 32 kB")
def c01(res, tier):
    engine.codec(res, "c01", world(tier), ["pack"], tier)
    huge(res, "c01h", "pack", tier)
    deep(res, "c01d", ["pack"], tier)


@check("C02", BROAD + "byte arrays: all up to 1 (2) bytes, else every byte value at every position over 5 backgrounds, neighbour pairs, every field over its raw patterns, every unclaimed bit flipped; assorted fields at the beginning, the middle and the end of structures of 1 to 32 kB")
def c02(res, tier):
    engine.codec(res, "c02", world(tier), ["unpack"], tier)
    huge(res, "c02h", "unpack", tier)
    deep(res, "c02d", ["unpack"], tier)


@check("C03", "as C01 and C02, for LSB0 numbering with and without spare bytes, low-first and high-first ranges, bits and bytes positions; assorted fields at the beginning, the middle and the end of structures of 1 to 32 kB")
def c03(res, tier):
    s = world(tier, "lsb0")
    s += F.lsb0_notations("N")
    engine.codec(res, "c03", s, ["pack", "unpack"], tier)
    deep(res, "c03d", ["pack", "unpack"], tier)


@check("C04", BROAD + "all values that fit, MSB0 and LSB0; assorted fields at the beginning, the middle and the end of structures of 1 to 32 kB")
def c04(res, tier):
    engine.codec(res, "c04", world(tier) + world("quick", "lsb0", "V")[::1 if tier == "thorough" else 2], ["roundtrip"], tier)
    deep(res, "c04d", ["roundtrip"], tier)


@check("C05", BROAD + "the byte arrays of C02, MSB0 and LSB0; assorted fields at the beginning, the middle and the end of structures of 1 to 32 kB")
def c05(res, tier):
    s = world(tier) + F.reserved_sweep("R", (1, 7, 8, 9, 31, 65), (0, 3)) + world("quick", "lsb0", "V")[::1 if tier == "thorough" else 4]
    engine.codec(res, "c05", s, ["repack"], tier)
    deep(res, "c05d", ["repack"], tier)


@check("C06", "every width 1..64 x field attribute {none, msb, lsb} x structure default {none, msb, lsb} in every spelling (msb/lsb/be/le, any case), over native, Integer, array, enum and catch-all fields at shifting offsets, MSB0 and LSB0 numbering; value and byte domains of C01/C02")
def c06(res, tier):
    t = tier == "thorough"
    s = F.endian_sweep("E", range(1, 65) if t else list(range(1, 26)) + [27, 31, 32, 33, 35, 39, 40, 41, 47, 48, 50, 55, 56, 57, 63, 64], (0, 1, 3, 6, 4, 2, 7, 5))
    s += F.endian_sweep("L", range(1, 65) if t else [7, 8, 9, 12, 16, 17, 24, 29, 32, 33, 48, 61, 64], (0, 5, 2, 7), "lsb0")
    engine.codec(res, "c06", s, ["pack", "unpack"], tier)


@check("C09", BROAD + "bool slots of 1..8 bits and enums of every backing type with holes; the byte arrays of C02; outcome classified against the model, panics and hangs (20 s) caught, and the unpacked value packed again; assorted fields at the beginning, the middle and the end of structures of 1 to 32 kB")
def c09(res, tier):
    s = world(tier) + (world("quick", "lsb0", "V")[::1 if tier == "thorough" else 3])
    s += F.reserved_sweep("R", (1, 7, 8, 13, 64, 129), (0, 3))
    engine.codec(res, "c09", s, ["total"], tier)
    deep(res, "c09d", ["total"], tier)


@check("C10", "reserved-zero and reserved-one fields of every width 1..255 at two offsets mod 8 and of 1..72 and around 127..255 at four (thorough: all at 8), both type-name spellings, alone and between neighbours, arrays of them, MSB0 and LSB0")
def c10(res, tier):
    t = tier == "thorough"
    widths = range(1, 256) if t else list(range(1, 73)) + [80, 95, 96, 97, 127, 128, 129, 160, 191, 192, 200, 247, 248, 254, 255]
    more = [w for w in range(1, 256) if w not in widths]
    s = F.reserved_sweep("R", widths, range(8) if t else (0, 1, 4, 7))
    s += F.reserved_sweep("M", more, (0, 5)) if more else []
    s += F.reserved_sweep("P", range(1, 256), (0,), mixed=False)
    s += F.array_sweep("A", (1, 2, 3, 5), (0, 3, 8), elems=[Res(o, w) for o in (0, 1) for w in (1, 3, 8, 11, 17)])
    s += F.array_sweep("B", (2, 3), (0, 5), "lsb0", elems=[Res(o, w) for o in (0, 1) for w in (1, 5, 8, 13)])
    s += F.reserved_lsb0("L", range(1, 34))
    engine.codec(res, "c10", s, ["pack", "unpack"], tier)
    # the wider ones need the larger byte types
    w = F.reserved_sweep("W", range(249, 512) if t else (249, 256, 257, 263, 264, 265, 320, 385, 504, 511), range(8) if t else (0, 1, 4, 7))
    engine.codec(res, "c10w", w, ["pack", "unpack"], tier, setup=lambda n: engine.Workspace(n, features=("std", "byte_types_64"), profile="mc"))
    ints(res, "c10", tier, bits="reserved::<$n>(rep);")


@check("C11", "arrays of 27 element types (integers native and partial, bool, reserved, enums, catch-all, nested) x length 1..5 and 31..33 (thorough 1..9, 16, 31..33), around 64, 128, 256 (512, 1024) elements of 5 (8) types, x offset, size stated per element, as a range or implied, both byte orders, MSB0 and LSB0")
def c11(res, tier):
    t = tier == "thorough"
    s = F.array_sweep("A", (1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 33) if t else (1, 2, 3, 5), range(9) if t else (0, 3, 8))
    s += F.array_sweep("L", (1, 2, 3, 7) if t else (2, 3), range(8) if t else (0, 5), "lsb0")
    s += F.array_sweep("Z", (31, 32, 33), (0, 1), elems=[Nat("u8"), Bool(), Int("u16", 11), Nat("i16")])
    # long ones: past 8-bit counts of elements, bits and bytes
    engine.codec(res, "c11g", F.long_arrays("G", t), ["pack", "unpack"], "small")
    engine.codec(res, "c11", s, ["pack", "unpack"], tier)


def with_header(name, header):
    ws = engine.Workspace(name, profile="mc")
    ws.crate_header = header
    return ws


@check("C12", "nested structures of every width 3..40 in slots as wide as their bits, their bytes, and in between, at offsets 0..8, to depth 3, in arrays; byte arrays under an alias and hand-written packable types; types with methods of their own named like the trait's; inner errors by fault injection")
def c12(res, tier):
    t = tier == "thorough"
    s = F.nested_sweep("N", range(3, 65) if t else range(3, 28), range(9) if t else (0, 1, 4, 8))
    s += F.nested_sweep("L", range(3, 41) if t else range(3, 28, 3), range(8) if t else (0, 5), "lsb0")
    s += F.alias_sweep("B", (1, 2, 3, 4, 5, 9), range(9) if t else (0, 3, 8))
    s += F.array_sweep("A", (1, 2, 3), (0, 3, 8), elems=[Nest(F.inner_struct(w)) for w in (9, 11, 24, 33)])
    s += F.nested_kinds("K", range(8))
    s += F.wide("W", range(28, 73) if t else (17, 31, 32, 33, 65), range(8) if t else (0, 3, 7), arrays=t) + F.wide("V", range(30, 67) if t else (32,), range(8) if t else (0, 3), "lsb0")
    s += F.decoys("D", range(8) if t else (0, 3))
    engine.codec(res, "c12", s, ["pack", "unpack", "size"], tier)
    # a trait in scope that has methods of the same names for all types
    x = F.decoys("D", (0, 3)) + F.mixtures("m")[::4 if t else 16]
    engine.codec(res, "c12d", x, ["pack", "unpack", "size"], tier if t else "small", setup=lambda n: with_header(n, F.DECOY_TRAIT))
    parts(res, "c12p", "c12", tier, derived_fault_lines())


@check("C13", "enum and catch-all fields of every backing type in every slot width it takes (1..64), offsets mod 8, both byte orders, discriminants at both ends, negative, with holes and wider than the slot, catch-all values that coincide with declared ones; arrays of them; MSB0 and LSB0")
def c13(res, tier):
    t = tier == "thorough"
    s = F.enum_sweep("E", range(8) if t else (0, 3, 6))
    s += F.enum_sweep("L", range(8) if t else (0, 5), numbering="lsb0")
    s += F.array_sweep("A", (1, 2, 3), (0, 3), elems=[F.enum_small("AE1"), F.enum_small("AE2", True), F.slot_enum("i16", 13, "AE3"), F.wide_enum("u32", "AE4", True), F.wide_enum("i64", "AE5", True), F.slot_enum("i8", 7, "AE6", True)])
    s += F.decoys("D", range(8) if t else (1,))
    engine.codec(res, "c13", s, ["pack", "unpack"], tier)


@check("C18", "all derived layouts of a broad set and every elementary type: every slice length 0..n+12 (40) and multiples, 3 fills x 5 backgrounds; unpacking compared with the array form on the byte domains of C02; assorted fields at the beginning, the middle and the end of structures of 1 to 32 kB")
def c18(res, tier):
    s = world("quick")[::1 if tier == "thorough" else 6] + F.single_sweep("s", (1, 7, 8, 9, 16, 17, 24, 33, 64), (0, 3))[::2] + F.bigger_sizes("g")[::1 if tier == "thorough" else 5]
    s += F.far("F", [2047, 4093])
    engine.codec(res, "c18", s, ["slice"], tier, slices=True)
    deep(res, "c18d", ["slice"], tier, slices=True)
    parts(res, "c18p", "c18", tier, ['lengths::<%s>("%s", "c18", &[vec![]], rep);' % (x, x) for x in FIXED])


@check("C22", "reported bytes and bits of every generated layout of all families (explicit, implied, open-ended, automatic, LSB0 sizes; bytes and bits notations); two fields of every pair of 8 kinds, declared in either order, where the later one is 1 to 17 (41) bits wide; layouts declared in reverse")
def c22(res, tier):
    t = tier == "thorough"
    s = F.bigger_sizes("g") + F.single_sweep("s", range(1, 65), (0, 1, 7) if not t else range(8), signs=(False,), endians=("msb",)) + F.auto_sequences("x", F.auto_alphabet(), 2) + F.mixed_open("o", F.auto_alphabet(), (0, 1, 5, 9))
    s += F.permutations("p") + F.many_fields("m") + F.far("f", [129, 255, 509, 2047]) + F.nested_sweep("n", (3, 8, 12, 17), (0, 5)) + F.array_sweep("a", (1, 3), (0, 5))
    s += F.alias_sweep("l", (1, 2, 3), (0, 3)) + F.reserved_sweep("r", (1, 7, 8, 9, 64, 65, 255), (0, 3)) + F.wide("w", (31, 32, 33, 64, 65, 129, 255), (0, 3))
    s += F.endings("E", range(1, 18) if not t else range(1, 42))
    s += F.reverse_decl(F.array_sweep("ar", (1, 3), (0, 5))) + F.reverse_decl(F.many_fields("mr") + F.mixtures("xr"))
    if t:
        s += F.one_byte_structs("y") + F.auto_sequences("z", F.auto_alphabet(), 3)
    engine.codec(res, "c22", s, ["size"], tier)
    huge(res, "c22h", "size", tier)
    ints(res, "c22", tier, "int_sizes::<$T, $n>(stringify!($T), rep);", "let p = &Probe::<Bits<$n>>(std::marker::PhantomData); bits_sizes::<$n>(p.full(), p.partial(), rep);", "array_sizes::<$n>(rep);", once=SIZES_ONCE)
    ints(res, "c22", tier, arrays="array_sizes::<$n>(rep);", sizes=BIG_ARRAYS, name="c22b")


@check("C25", "every ordered pair of 17 field kinds, structures of up to 257 fields and of up to 2 kB, arrays, nesting, fields of 32, 33, 34 and more bits, large offsets, long names; 5 backgrounds and corner values; all 32 section switches; assorted fields at the beginning, the middle and the end of structures of 1 to 32 kB")
def c25(res, tier):
    t = tier == "thorough"
    s = F.mixtures("m") + F.far("f", [99, 250, 999, 1009, 2047]) + F.array_sweep("a", (1, 2, 11) if t else (2, 11), (0, 3))[::1 if t else 3] + F.many_fields("q")
    s += F.show_widths("w") + F.nested_sweep("n", (3, 8, 12, 33), (0, 3)) + F.reserved_sweep("r", (1, 8, 31, 32, 33, 34, 40), (0, 5)) + F.enum_sweep("e", (0, 3), widths=(3, 8, 16, 29, 33))
    s += F.mixtures("L", "lsb0")[::1 if t else 2] + F.permutations("p")[::1 if t else 3]
    s += F.decoys("D", (0, 3))
    engine.codec(res, "c25", s, ["show"], tier, show=True)
    s = F.lots("k", (65, 130, 257)) + F.lots("K", (90,), "lsb0") + F.wide("W", (31, 33, 200), (3,)) + F.far("f", [2999, 16381])
    engine.codec(res, "c25l", s, ["show"], tier if t else "small", show=True)
    deep(res, "c25d", ["show"], tier, show=True)


@check("C30", "every ordered pair of 44 field names on scalar and array fields, 97 more names on fields of 10 kinds, names that look like the array's element names, up to 26 automatically placed fields whose names are in no order, and all declaration orders of 4 and 5 explicitly placed fields, MSB0 and LSB0")
def c30(res, tier):
    t = tier == "thorough"
    s = F.name_pairs("n") + F.shuffled_names("k") + F.name_words("w") + F.name_suffixes("s") + F.permutations("p") + F.reverse_decl(F.many_fields("q")) + F.reverse_decl([x for x in F.mixtures("m") if len(x.fields) == 2][::1 if t else 4])
    engine.codec(res, "c30", s, ["pack", "unpack", "size"] if t else ["roundtrip", "repack", "size"], tier)


def int_lists(part, parts, signed_helper):
    o = "ints! { "
    for sg in (0, 1):
        for nb, lo, hi in ((8, 1, 8), (16, 9, 16), (32, 17, 32), (64, 33, 64)):
            o += "%s%d %s : %s; " % ("ui"[sg], nb, "true" if sg else "false", " ".join(str(i) for i in range(lo, hi + 1) if (i + 4 * sg) % parts == part))
    o += "}\n"
    if signed_helper:
        o += "    signed! { "
        for nb, lo, hi in ((8, 1, 8), (16, 9, 16), (32, 17, 32), (64, 33, 64)):
            o += "i%d : %s; " % (nb, " ".join(str(i) for i in range(lo, hi + 1) if i % parts == part))
        o += "}\n"
    return o


SIZES_ONCE = """
    expect_sizes(rep, "u8", &[8, 1, 1], || vec![u8::packed_bits(), u8::packed_bytes_size(None).unwrap(), <u8 as PackedStruct>::ByteArray::len()]);
    expect_sizes(rep, "i8", &[8, 1, 1], || vec![i8::packed_bits(), i8::packed_bytes_size(None).unwrap(), <i8 as PackedStruct>::ByteArray::len()]);
    expect_sizes(rep, "bool", &[1, 1, 1], || vec![bool::packed_bits(), bool::packed_bytes_size(Some(&true)).unwrap(), <bool as PackedStruct>::ByteArray::len()]);
    expect_sizes(rep, "()", &[0, 0, 0], || vec![<()>::packed_bits(), <()>::packed_bytes_size(None).unwrap(), <() as PackedStruct>::ByteArray::len()]);
"""
NATIVE_ONCE = "".join('native_bytes::<%s>("%s", %s, true, rep);\n' % (p, p, "true" if p[0] == "i" else "false") for p in F.PRIMS)
ARRAY_SIZES = list(range(0, 41)) + [48, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 1000]


BIG_ARRAYS = [1023, 1024, 1025, 1500, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 32769, 65535, 65536, 65537, 70000]


def ints(res, mode, tier, ints_=None, bits=None, arrays=None, once="", parts=8, name=None, sizes=ARRAY_SIZES):
    srcs = []
    for k in range(parts):
        lists = ""
        if ints_:
            lists += int_lists(k, parts, mode == "c07")
        if bits:
            lists += "bits! { %s }\n" % " ".join(str(i) for i in range(1, 256) if i % parts == k)
        if arrays:
            lists += "arrays! { %s }\n" % " ".join(str(i) for j, i in enumerate(sizes) if j % parts == k)
        srcs.append(engine.engine_src("ints.rs", LISTS=lists, INTS=ints_ or "", BITS=bits or "", ARRAYS=arrays or "", ONCE=once if k == 0 else ""))
    engine.program(res, name or mode + "i", srcs, [[mode, tier]])


@check("C07", "Integer<T, Bits<N>> for every T and N (1..64, both signs): all native values for 8 and 16 bit types, pattern set for 32 and 64 bits; every conversion route, Display/Debug, equality and hash on all pairs of 30 corner values")
def c07(res, tier):
    ints(res, "c07", tier, "wrapping::<$T, $n>(stringify!($T), $s, rich, rep);", parts=16)


@check("C08", "all native integer types and every (T, N): all values of widths up to 16, pattern set above; arbitrary byte strings (all up to 2 bytes, pattern set above) through from_*_bytes and the packing helpers")
def c08(res, tier):
    ints(res, "c08", tier, "sized_bytes::<$T, $n>(stringify!($T), $s, rich, mode, rep);", once=NATIVE_ONCE, parts=16)


@check("C31", "u8, i8, bool over all 256 bytes; (); [u8; N] for N 0..40 and selected to 1000; the MSB and LSB helpers for every (T, N) over the domains of C08")
def c31(res, tier):
    ints(res, "c31", tier, "sized_bytes::<$T, $n>(stringify!($T), $s, rich, mode, rep);", arrays="byte_array_type::<$n>(rep);", once="elementary(rep);", parts=16)
    ints(res, "c31", tier, arrays="byte_array_type::<$n>(rep);", sizes=BIG_ARRAYS, name="c31b")


@check("C32", "[u8; N] for N 0..40 and selected to 4097 and 70000: new for all 256 values, slices, rotate_right by every k < N (for N > 5000: near both ends and the powers of two) over byte strings with every byte set in turn (two strings for N > 64)")
def c32(res, tier):
    ints(res, "c32", tier, arrays="helpers::<$n>(rep, rich);")
    ints(res, "c32", tier, arrays="helpers::<$n>(rep, rich);", sizes=BIG_ARRAYS, name="c32b")


@check("C33", "writers that refuse one write, all writes from one on, or everything beyond a number of bytes, for every write and every byte (the first and last 200 of each where there are more; thorough all): displays of derived structures (every ordered pair of 17 field kinds, arrays, nesting, reserved fields, enums, wide fields, 65 and 130 fields) with all 32 section switches, the field listing alone, integers and helpers of every (type, width), reserved fields of every width up to 255, errors, bit ranges, values that fail to pack, listings that fail")
def c33(res, tier):
    t = tier == "thorough"
    s = F.mixtures("m")[::1 if t else 2] + F.mixtures("L", "lsb0")[::2 if t else 5] + F.array_sweep("a", (1, 2, 11) if t else (2, 11), (0, 3))[::1 if t else 6] + F.many_fields("q")
    s += F.show_widths("w")[::1 if t else 2] + F.nested_sweep("n", (3, 8, 12, 33), (0, 3))[::1 if t else 3] + F.reserved_sweep("r", (1, 8, 31, 33, 40), (0, 5))[::1 if t else 2] + F.enum_sweep("e", (0, 3), widths=(3, 8, 16, 33))[::1 if t else 3]
    engine.codec(res, "c33", s, ["showfail"], tier, show=True)
    engine.codec(res, "c33l", F.lots("k", (65, 130)) + F.wide("W", (33,), (3,)), ["showfail"], "small", show=True)
    ints(res, "c33", tier, "show_ints::<$T, $n>(stringify!($T), rep);", "show_reserved::<$n>(rep);", once="show_rest(rep);")


def parts(res, name, mode, tier, lines, n=8):
    """the lines are spread over n programs"""
    n = max(1, min(n, len(lines)))
    engine.program(res, name, [engine.engine_src("parts.rs", BODY="\n    ".join(lines[i::n])) for i in range(n)], [[mode, tier]])


def ty_name(t):
    return t.replace('"', "'")


FIXED = ["u8", "i8", "bool", "()", "[u8; 0]", "[u8; 1]", "[u8; 3]", "[u8; 32]", "[u8; 33]", "[u8; 300]", "[u8; 2000]", "[u8; 70000]", "P<1>", "P<2>", "P<5>", "P<64>", "S1", "S2", "S3", "S4", "S5"]


@check("C19", "Vec of 16 element types (integers, byte arrays, user types, derived structures, tuples, statically sized slice-only types, nested vectors) with 0..5 (0..12) elements: packing into and unpacking from every buffer length 0..n+9 and multiples, 3 fills; 31..300 elements into the lengths around; vectors up to 70001 elements; element faults at every index of up to 600")
def c19(res, tier):
    el = ["u8", "i8", "bool", "[u8; 1]", "[u8; 2]", "[u8; 3]", "[u8; 7]", "P<1>", "P<2>", "P<3>", "P<16>", "S1", "S3", "S5", "Fix", "(u8, P<2>)", "(u8,)", "(P<1>, [u8; 4], bool)", "Vec<u8>", "(u8, Vec<u8>)", "D", "(S5, (u8, u8))"]
    lines = ['lengths::<Vec<%s>>("Vec<%s>", "c19", &all, rep);' % (t, t) for t in el]
    lines += ['faults::<Vec<%s>>("Vec<%s> with faults", false, rep);' % (t, t) for t in ("P<1>", "P<2>", "P<3>", "S1", "Fix", "(u8, P<2>)", "S3")]
    lines += ["big_vectors(rep);", "long_faults(rep);"]
    lines += ['lengths::<Vec<%s>>("long Vec<%s>", "c19", &[vec![31], vec![64], vec![85], vec![127], vec![128], vec![200], vec![255], vec![256], vec![257], vec![300]], rep);' % (x, x) for x in ("u8", "P<3>", "S1", "(u8, P<2>)", "Fix", "bool")]
    parts(res, "c19", "c19", tier, lines)


def tuple_types(tier):
    t = tier == "thorough"
    alpha = ["u8", "[u8; 3]", "P<2>", "()", "Vec<u8>", "Vec<P<2>>", "D", "(u8, Vec<u8>)", "S5", "Fix"]
    out = ["(%s,)" % a for a in alpha]
    out += ["(%s, %s)" % x for x in itertools.product(alpha, repeat=2)]
    small = ["u8", "P<2>", "Vec<u8>", "(u8, Vec<[u8; 2]>)", "()"] if not t else alpha[:8]
    out += ["(%s, %s, %s)" % x for x in itertools.product(small, repeat=3)]
    out += ["(%s)" % ", ".join(x) for x in itertools.product(["u8", "[u8; 2]", "Vec<P<1>>"], repeat=4)]
    st = ["u8", "P<2>", "[u8; 3]", "bool", "P<1>", "S5", "u8", "[u8; 4]", "Fix", "i8"]
    for n in range(5, 11):
        out.append("(%s)" % ", ".join(st[:n]))
        for d in range(n):
            for dy in ("Vec<u8>", "Vec<P<3>>", "(Vec<[u8; 2]>, u8)") if t else (("Vec<u8>",) if d % 2 else ("Vec<P<3>>",)):
                x = st[:n]
                x[d] = dy
                out.append("(%s)" % ", ".join(x))
        for d in range(0, n - 1, 1 if t else 3):
            x = st[:n]
            x[d] = "Vec<u8>"
            x[n - 1] = "D"
            out.append("(%s)" % ", ".join(x))
    out += ["((u8, (P<1>, Vec<u8>)), [u8; 2])", "(((Vec<u8>,),),)", "((u8, u8), (Vec<P<2>>, (u8,)), P<1>)", "((Vec<u8>, u8), (u8, Vec<u8>))"]
    return out


@check("C20", "all tuples of 1 and 2 parts over 10 part types (static, dynamic, empty, nested), of 3 over 5 (8), of 4 over 3, and of 5..10 parts with a dynamic part at every position: pack, unpack and size for every buffer length 0..n+9 and dynamic lengths 0..5 (0..12); 11 tuples with static parts up to 300 bytes and dynamic parts of 31..300 elements; parts of up to 131072 elements")
def c20(res, tier):
    parts(res, "c20", "c20", tier, ["big_tuples(rep);"] + ['lengths::<%s>("%s", "c20", &all, rep);' % (t, t) for t in tuple_types(tier)] +
          ['lengths::<%s>("long %s", "c20", &[vec![31], vec![63], vec![64], vec![85], vec![127], vec![128], vec![200], vec![253], vec![255], vec![256], vec![300]], rep);' % (x, x) for x in ("(Vec<u8>,)", "(u8, Vec<u8>)", "(Vec<P<3>>, P<2>)", "(P<2>, Vec<P<2>>, u8)", "([u8; 300], Vec<u8>)", "(Vec<u8>, [u8; 255])", "(u8, (P<1>, Vec<P<2>>), [u8; 128])", "(u8, P<2>, [u8; 200], bool, P<1>, S5, u8, [u8; 4], Vec<P<3>>, [u8; 256])", "(D, [u8; 256])", "([u8; 255], u8)", "([u8; 256], [u8; 300])")], 16)


def derived_fault_lines():
    return ['derived_faults::<%s>("%s", rep, |x| x.to_string());' % (s, s) for s in ("S1", "S2", "S3", "S4", "S5")] + \
        ['derived_faults::<%s>("%s", rep, |x| PackedStructDisplay::new(x).to_string());' % (s, s) for s in ("S1", "S3")] + \
        ['crooked_faults::<%s>("%s", rep, |x| x.to_string());' % (s, s) for s in ("U1", "U2", "U3", "U4")]


@check("C21", "every single fault of each of 10 error kinds at every part, every pair of faults (6 to 10 kind pairs), all fault subsets up to 6 parts, in vectors, tuples of 1..10 parts, derived structures with arrays and nesting to depth 3, and mixtures; sizing faults of instances and types; a fault at every element of vectors up to 600; display of failing structures")
def c21(res, tier):
    lines = derived_fault_lines()
    tv = ["Vec<P<1>>", "Vec<P<3>>", "Vec<S1>", "Vec<S3>", "Vec<(P<1>, u8, P<2>)>", "(P<1>,)", "(P<1>, P<2>)", "(Vec<P<2>>, P<1>)", "(P<1>, Vec<S1>, P<2>)", "((P<1>, P<2>), (P<1>, Vec<P<1>>))", "(S1, S3)", "(u8, S2, bool, P<1>)",
          "(P<1>, P<1>, P<1>, P<1>, P<1>, P<1>, P<1>, P<1>, P<1>, P<1>)", "(P<1>, P<2>, P<3>, Vec<P<1>>, P<1>, P<2>)", "(P<1>, P<2>, P<3>, P<1>, Fix, P<1>, P<2>)", "(P<2>, Fix, P<1>, Vec<P<2>>)", "(P<1>, P<1>, Vec<(P<1>, P<2>)>)", "(P<1>, P<2>, P<1>, P<2>, P<1>)",
          "(P<1>, P<2>, P<1>, P<2>, P<1>, P<1>, P<1>, P<1>)", "(P<1>, P<2>, P<1>, P<2>, P<1>, P<1>, P<1>, P<1>, P<2>)", "Vec<Fix>", "(((P<1>,), P<1>), P<1>)"]
    lines += ['faults::<%s>("%s", false, rep);' % (t, t) for t in tv]
    dv = ["(D,)", "(P<1>, D)", "(D, P<1>)", "(P<2>, D, P<1>)", "(D, D)", "(P<1>, (D, P<1>))", "(u8, D, D, P<1>)"]
    lines += ['faults::<%s>("%s", true, rep);' % (t, t) for t in dv]
    for k in range(9):
        k2 = (k + 3) % 9
        bt = ["Vec<Bad<%d>>" % k, "(Bad<%d>,)" % k, "(u8, Bad<%d>)" % k, "(Bad<%d>, u8, Vec<u8>)" % k, "(u8, Vec<u8>, Bad<%d>, Bad<%d>)" % (k, k2), "(u8, (u8, Bad<%d>), Bad<%d>)" % (k, k2), "(Vec<u8>, Vec<u8>, Bad<%d>)" % k, "(u8, P<1>, u8, u8, u8, u8, u8, u8, u8, Bad<%d>)" % k]
        lines += ['faults::<%s>("%s", false, rep);' % (t, t) for t in bt]
    lines += ["long_faults(rep);"]
    parts(res, "c21", "c21", tier, lines, 16)


def enums(res, name, mode, tier, es, shards=16):
    """the derive under the compiler's own lints: a literal that does not fit its type is an error"""
    ws = engine.Workspace(name, profile="mclight")
    ws.cap_lints = False
    byname = {e.name: e for e in es}
    assert len(byname) == len(es)
    chunks = [c for c in (es[i::shards] for i in range(shards)) if c]
    for i, c in enumerate(chunks):
        src, owner = EN.source(c)
        ws.add("%s_%d" % (name, i), src, owner)
    t = time.time()
    errs = ws.build()
    res.notes["build_s"] = round(time.time() - t, 1)
    res.notes["enums"] = len(es)
    if errs:
        seen = {}
        for pkg, f, line, msg, rendered in errs:
            seen.setdefault(ws.owner_of(pkg, line), rendered or msg)
        if set(seen) == {None}:
            raise engine.EngineError("generated enums do not compile: " + errs[0][4])
        for who, msg in seen.items():
            if who is not None:
                res.fail(who, "compile", byname[who].source(), "compiles", msg)
        return
    for tag, r in engine.run_bins([(ws.bin("%s_%d" % (name, i)), [mode, tier], i) for i in range(len(chunks))]):
        for x in r["records"]:
            if x["case"] in byname:
                x["input"] += "   of\n" + byname[x["case"]].source()
        res.merge(r)


ENUM_LITS = [None, "0", "1", "6", "-1", "-3", "-128", "127", "0x7E", "254", "-0"]


@check("C14", "enums: all sequences of 1..3 variants over 11 discriminants (implicit, both signs, -0, limits, hexadecimal; backing types rotating, thorough: every backing type), limits, spellings, suffixes and implicit continuation for each of the 8 backing types, sizes 1..300; primitive values: all of 8 and 16 bit types, else the neighbourhood of 0, of every discriminant under every bit flip, truncation and shift, and of every power of two")
def c14(res, tier):
    t = tier == "thorough"
    enums(res, "c14", "numbers", tier, EN.sequences("Q", ENUM_LITS, 3, t) + EN.edges("G") + EN.sizes("Z"))


@check("C15", "enums left implicit: every limit of every integer type alone, every ordered pair of 25 limits, triples with negative values (thorough: all triples in all orders), implicit continuation over each limit, suffixed literals of all 8 types")
def c15(res, tier):
    enums(res, "c15", "backing", tier, EN.limits("L", tier == "thorough"))


@check("C16", "the enums of C14 (2 variant sequences) and C17 under EnumCatchAll: the values of C14, all pairs of up to 90 enum and catch-all values around each discriminant, the strings of C17")
def c16(res, tier):
    t = tier == "thorough"
    enums(res, "c16", "catchall", tier, EN.sequences("Q", ENUM_LITS, 2, t) + EN.edges("G")[::1 if t else 3] + EN.sizes("Z", (1, 2, 17, 255, 256)) + EN.named("N")[::1 if t else 4])


@check("C17", "enums with names of 28 shapes; every identifier, all its case patterns, prefixes, suffixes, single insertions, deletions, replacements, transpositions, concatenations, and every word of up to 3 letters over its letters")
def c17(res, tier):
    enums(res, "c17", "names", tier, EN.named("N") + EN.sizes("Z", (2, 17, 64)))


def agreed(res, name, items, profile="dev"):
    """the compiler's verdict on each program against the documented one"""
    t = time.time()
    got, runs = VD.verdicts(name, {i: s for i, (s, ok, why) in items.items()}, profile=profile)
    res.notes.setdefault("compile_s", {})[name] = round(time.time() - t, 1)
    res.notes.setdefault("compiler_runs", {})[name] = runs
    fams = {}
    for i, (src, ok, why) in items.items():
        res.states += 1
        res.transitions += 1
        res.traces += 1
        res.cases += 1
        f = i.rstrip("0123456789") + (" accepted" if ok else " rejected")
        fams[f] = fams.get(f, 0) + 1
        if (got[i] is None) != ok:
            res.fail(why, "compile", src, "accepted" if ok else "rejected", "accepted" if got[i] is None else "rejected: %s" % got[i])
    res.outcomes += len(set(got.values()))
    res.counters.update(fams)
    res.samples += ["%s: %s: %s" % (i, items[i][2], got[i] or "accepted") for i in list(items)[::max(1, len(items) // 8)]]


def programs_of(structs):
    out = {}
    for s in structs:
        out["w_" + s.name] = ("".join(d.source() for d in s.deps()) + s.source(), True, "the well-formed layout " + s.name)
    return out


@check("C23", "all ordered pairs of ranges within 8 (12) bits, LSB0 pairs within 5 (8), triples within 3 (5); single bits around both ends of every kind of field at near and far offsets; every range against every size of 1..2 (1..3) bytes; arrays of 1..5 elements in 1..24 (1..40) bits; automatic and open-ended fields against explicit ones; 16 kinds of names and visibilities on fields that overlap or fit; one overlap among 12, 40 (150) fields; each kind of defect at each place of 1..4 fields, with its well-formed twin; the broad set of well-formed layouts; 28 source spellings (visibility, attribute splitting and order, raw names, redundant sizes, doc comments, other derives)")
def c23(res, tier):
    t = tier == "thorough"
    items = WF.all_programs(t)
    agreed(res, "c23", items)
    # the derive built without overflow checks, as in a release build
    agreed(res, "c23r", {i: x for i, x in items.items() if t or i.startswith(("size", "fill", "value", "first", "width"))}, "mcrelease")
    s = world(tier) + world("quick", "lsb0", "V")[::1 if t else 2] + F.reserved_sweep("R", range(1, 256, 1 if t else 9), (0, 3)) + F.auto_sequences("x", F.auto_alphabet(), 2)[::1 if t else 3]
    s += F.array_sweep("Y", (1, 2, 3, 31, 32, 33), (0, 3))[::1 if t else 5] + F.styles("y")
    agreed(res, "c23w", programs_of(s))


def exclusive_bytes(res, tier):
    """where "bytes = a..b" puts a field, for every a < b: observed from the bits it sets, against the documented bytes a to b - 1"""
    n = 8
    ws = engine.Workspace("c24x", mc=False, profile="dev")
    cases = [(a, b, num) for num in ("msb0", "lsb0") for a in range(n) for b in range(a + 1, n + 1)]
    prog = {}
    for a, b, num in cases:
        # a field of k bytes: the one k that the compiler accepts tells the width
        for k in range(1, n + 1):
            prog["x%d_%d_%s_%d" % (a, b, num, k)] = '#[derive(PackedStruct, Debug)]\n#[packed_struct(bit_numbering="%s", size_bytes="%d")]\npub struct S {\n    #[packed_field(bytes="%d..%d")]\n    pub f: W\n}\npub type W = [u8; %d];\npub fn ones() -> Vec<usize> { let p = S { f: [255; %d] }.pack().unwrap(); (0..p.len() * 8).filter(|i| p[i / 8] >> (7 - i %% 8) & 1 == 1).collect() }' % (num, n + 1, a, b, k, k)
    got, runs = VD.verdicts("c24v", prog, shards=8)
    ok = [i for i in prog if got[i] is None]
    src = "#![allow(warnings)]\n" + "".join("mod m_%s {\nuse packed_struct::prelude::*;\n%s\n}\n" % (i, prog[i]) for i in ok)
    src += "fn main() { let mut o = String::new(); %s std::fs::write(std::env::var(\"MC_OUT\").unwrap(), o).unwrap(); }\n" % " ".join('o += &match std::panic::catch_unwind(|| m_%s::ones()) { Ok(v) => format!("%s {:?}\\n", v), Err(_) => "%s panic\\n".to_string() };' % (i, i, i) for i in ok)
    seen = {}
    if ok:
        ws.add("c24x_main", src)
        errs = ws.build()
        if errs:
            raise engine.EngineError("the exclusive byte ranges do not build: " + errs[0][4])
        out = os.path.join(engine.BUILD, "c24x.out")
        p = engine.run_group([ws.bin("c24x_main")], 60, env=dict(os.environ, MC_OUT=out))
        if p is None or p.returncode:
            raise engine.EngineError("the exclusive byte ranges do not run")
        with open(out) as f:
            for l in f:
                k, v = l.rstrip().split(" ", 1)
                seen[k] = v
        os.remove(out)
    for a, b, num in cases:
        res.states += 1
        res.transitions += n
        res.traces += n
        res.cases += 1
        acc = [i for i in ("x%d_%d_%s_%d" % (a, b, num, k) for k in range(1, n + 1)) if got[i] is None]
        r = []
        for i in acc:
            if seen[i] == "panic":
                r.append("panic")
                continue
            bits = json.loads(seen[i])
            if num == "lsb0":
                bits = sorted((n + 1) * 8 - 1 - x for x in bits)
            r.append("bits %d:%d" % (bits[0], bits[-1]) if bits and bits == list(range(bits[0], bits[-1] + 1)) else "bits %r" % bits)
        r = ", ".join(r) or "rejected"
        i = acc[0] if acc else "x%d_%d_%s_%d" % (a, b, num, b - a)
        want = "bits %d:%d" % (8 * a, 8 * b - 1)
        if r != want:
            res.fail('bytes="%d..%d" %s' % (a, b, num), "notation", prog[i], want, r)
    res.notes["exclusive byte ranges"] = len(cases)


@check("C24", "every range within 10 (16) bits in 8 forms (':', '..=', '..', either end first, spaces) with 8 number styles (hexadecimal, spaces, leading zeros), alone, before and after automatic fields; LSB0; whole bytes within 7 (9) in 6 forms; open-ended starts 0..11 (0..16) of 24 field kinds with sizes implied or stated in bits and bytes; far positions; fields and elements of up to 9000 bytes with sizes stated in bits and bytes; exclusive byte ranges within 8; every sequence of 2 (3) automatic, open and explicit placements of 13 kinds after 4 gaps; 28 source spellings of 3 layouts (thorough: pairs of spellings)")
def c24(res, tier):
    t = tier == "thorough"
    s = F.notation_ranges("r", 16 if t else 10, styles=8 if t else 1) + F.notation_ranges("l", 12 if t else 9, 1 if t else 2, "lsb0", styles=1)
    s += F.notation_bytes("b", 9 if t else 6) + F.notation_bytes("c", 7 if t else 4, "lsb0") + F.notation_open("o", 17 if t else 11, t) + F.notation_far("f", (17, 99, 100, 255, 256, 999, 1000, 2047, 4095, 10000))
    s += F.mixed_open("m", F.auto_alphabet(), (0, 1, 5, 9) if t else (0, 5)) + F.auto_sequences("a", F.auto_alphabet(), 3 if t else 2)
    s += F.styles("y", t)
    engine.codec(res, "c24", s, ["pack", "size"], tier)
    engine.codec(res, "c24s", F.notation_sizes("z", (31, 32, 33, 63, 64, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 600, 1000, 1024, 1025, 2048, 4096, 8191, 8192, 9000)), ["pack", "size"], "small")
    exclusive_bytes(res, tier)


@check("C26", "the broad set of layouts under both numberings, every sequence of 2 (3) automatically placed fields of 13 kinds, open placements after gaps, arrays of 1..33 and of 255..1030 elements, structures of up to 300 fields and up to 32 kB, far positions, explicit sizes, every declaration order of 4 fields, names")
def c26(res, tier):
    import docs
    t = tier == "thorough"
    s = world(tier) + world(tier, "lsb0", "V") + F.auto_sequences("x", F.auto_alphabet(), 3 if t else 2) + F.mixed_open("m", F.auto_alphabet(), (0, 1, 5, 9) if t else (0, 5))
    s += F.array_sweep("Z", (255, 256, 257, 300, 1030), (3,), elems=[Bool(), Nat("u8"), Int("i16", 11)]) + F.deep("D")
    s += F.array_sweep("Y", (1, 2, 3, 31, 32, 33), (0, 3)) + F.far("F", (129, 255, 509, 2047, 4093, 16381, 65533, 2 ** 24 + 5, 2 ** 27 + 9)) + F.bigger_sizes("B") + F.permutations("P") + F.notation_far("f", (17, 99, 100, 255, 256, 999, 1000, 10000))
    docs.run(res, "c26", s)


@check("C29", "every (T, N): all native values of 8 and 16 bit types, pattern set for 32 and 64 bits, through 8 primitive deserialisers, self-describing and typed formats that are and are not human-readable, text, values, options, tuples, structures and map keys; 300 numbers on each side of both native limits, powers of two to 2^65 and numbers with the same low bits; every packing error over 13 lengths; reserved bits 1..255")
def c29(res, tier):
    n = 16
    srcs = []
    for k in range(n):
        lists = int_lists(k, n, False) + "bits! { %s }\n" % " ".join(str(i) for i in range(1, 256) if i % n == k)
        srcs.append(engine.engine_src("serde.rs", LISTS=lists))
    engine.program(res, "c29", srcs, [["c29", tier]], features=("std", "use_serde"), extra_deps="serde = { version = \"1\", features = [\"derive\"] }\nserde_json = \"1\"\n", profile="mclight")


@check("C28", "12 of the 72 configurations of std / alloc / neither x 4 byte-type ranges x serialisation x debug / optimised with overflow checks / release, so that every pair of settings occurs (all 72): layouts of every field kind against the reference model in each; every operation over small complete domains, one line each, compared between all configurations; every width 1..255 and 60 of those each larger range adds")
def c28(res, tier):
    import configs
    t = tier == "thorough"
    s = F.mixtures("m")[::5 if t else 23] + F.mixtures("n", "lsb0")[3::7 if t else 41] + F.many_fields("q")[::2] + F.array_sweep("a", (2, 3), (3,))[::7 if t else 29] + F.far("f", (255, 1021))
    configs.run(res, s, tier)


@check("C27", "506 operations, of which 58 core ones and 20 panic in the user's code: all sequences of 2 operations and of 3 core ones (and of 4 over a third), the second also on another thread, each in a process that forks at every step; 66 000 (1 000 000) repetitions of each core operation, 600 (66 000) of the others; every operation called from every call-back (user parts, user writers) of the others; all schedules with up to 3 (6) preemptions of every pair at calls and call-backs; every operation of up to 1000 (30 000) instructions preempted at every one of them by itself, by its neighbour (and every fourth) alone, and by every fourth (by all) operations in turn")
def c27(res, tier):
    n = engine.JOBS
    engine.program(res, "c27", engine.engine_src("history.rs"), [[m, tier, str(w), str(n)] for m in ("history", "preempt", "interleave", "reenter", "repeat") for w in range(n)], extra_deps='libc = "0.2"\n')


TECHNIQUE = {}
