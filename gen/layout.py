"""Abstract layouts with absolute MSB0 positions as ground truth, rendered into attribute syntax.

Nothing here parses attributes: a layout is built from numbers, and a notation is chosen that, according
to the documentation, denotes those numbers."""
import itertools

MAXV = 1 << 70


class Leaf:
    __slots__ = ("kind", "off", "width", "cut", "lsb", "native", "signed", "disc", "name")

    def __init__(self, kind, off, width, lsb=False, native=0, signed=False, disc=None, cut=0, name=""):
        self.kind, self.off, self.width, self.lsb = kind, off, width, lsb
        self.native, self.signed, self.disc, self.cut, self.name = native, signed, disc, cut, name

    def moved(self, d, prefix):
        return Leaf(self.kind, self.off + d, self.width, self.lsb, self.native, self.signed, self.disc, self.cut, prefix + self.name)

    def line(self):
        d = ",".join(str(x) for x in self.disc) if self.disc else "-"
        return "L %s %d %d %d %s %d %s %s %s" % (self.kind, self.off, self.width, self.cut, "l" if self.lsb else "m",
                                                 self.native, "s" if self.signed else "u", d, self.name or "x")


def native_bits(w):
    return 8 if w <= 8 else 16 if w <= 16 else 32 if w <= 32 else 64


class Elem:
    """A field (element) type. width: natural width or None when it has to be stated."""
    endianful = False   # is an integer for the purposes of endianness
    is_enum = False
    decl = ()           # other items this type depends on (Struct / Enum objects)
    slot = None         # set of allowed slot widths (None: only self.width)

    def leaves(self, w, lsb):
        raise NotImplementedError


class Nat(Elem):
    endianful = True

    def __init__(self, t):
        self.rust = t
        self.signed = t[0] == "i"
        self.native = int(t[1:])
        self.width = self.native
        lo = {8: 1, 16: 9, 32: 17, 64: 33}[self.native]
        self.slot = range(lo, self.native + 1)

    def leaves(self, w, lsb):
        return [Leaf("S" if self.signed else "U", 0, w, lsb and w > 8, self.native, self.signed)]


class Int(Elem):
    endianful = True

    def __init__(self, t, w):
        self.t, self.width = t, w
        self.rust = "Integer<%s, packed_bits::Bits::<%d>>" % (t, w)
        self.signed = t[0] == "i"
        self.native = int(t[1:])

    def leaves(self, w, lsb):
        assert w == self.width
        # values always fit: an Integer wraps on construction, so native == width
        return [Leaf("S" if self.signed else "U", 0, w, lsb and w > 8, w, self.signed)]


class Bool(Elem):
    rust, width = "bool", 1
    slot = range(1, 9)

    def leaves(self, w, lsb):
        return [Leaf("B", 0, w)]


class Res(Elem):
    def __init__(self, one, w, name=None):
        self.one, self.width = one, w
        self.rust = "%s<packed_bits::Bits::<%d>>" % (name or ("ReservedOne" if one else "ReservedZero"), w)

    def leaves(self, w, lsb):
        assert w == self.width
        return [Leaf("R1" if self.one else "R0", 0, w)]


class Enum(Elem):
    """disc: list of (variant name, discriminant expression or None, value)"""
    endianful = True
    is_enum = True
    width = None
    decoys = False

    def __init__(self, name, prim, variants, catch_all=False, derive=None, repr_=None):
        self.name, self.prim, self.variants, self.catch_all = name, prim, variants, catch_all
        self.derive = derive or "PrimitiveEnum_" + prim
        self.repr = repr_ or prim
        self.signed = prim[0] == "i"
        self.native = int(prim[1:])
        lo = {8: 1, 16: 9, 32: 17, 64: 33}[self.native]
        self.slot = range(lo, self.native + 1)
        self.rust = "EnumCatchAll<%s>" % name if catch_all else name
        self.decl = (self,)

    def leaves(self, w, lsb):
        return [Leaf("C" if self.catch_all else "E", 0, w, lsb and w > 8, self.native, self.signed, sorted(v for _, _, v in self.variants))]

    def source(self):
        o = "#[derive(%s, Clone, Copy, Debug, PartialEq)]\n#[repr(%s)]\npub enum %s { " % (self.derive, self.repr, self.name)
        o += ", ".join(n + (" = " + e if e is not None else "") for n, e, _ in self.variants)
        return o + " }\n" + (decoys(self.name, 1, self.prim) if self.decoys else "")

    def glue(self):
        o = "impl mc::Leaf for %s { const N: usize = 1;\n" % self.name
        o += " fn set(v: &[i128]) -> Self { match v[0] { " + ", ".join("%d => %s::%s" % (v, self.name, n) for n, _, v in self.variants)
        o += ", x => panic!(\"no variant {x}\") } }\n"
        o += " fn get(&self, o: &mut Vec<i128>) { o.push(*self as %s as i128) } }\n" % self.repr
        return o


def decoys(name, nbytes, prim=None):
    """methods of the user's own type that have the names of the packing traits' methods, and do something else"""
    o = "impl %s {\n pub fn pack(&self) -> Result<[u8; %d], packed_struct::PackingError> { Err(packed_struct::PackingError::InvalidValue) }\n" % (name, nbytes)
    o += " pub fn unpack(_: &[u8; %d]) -> Result<Self, packed_struct::PackingError> { Err(packed_struct::PackingError::InternalError) }\n pub fn packed_bits() -> usize { 0 }\n pub fn packed_bytes_size(_: Option<&Self>) -> usize { 0 }\n" % nbytes
    if prim:
        o += " pub fn to_primitive(&self) -> %s { 0 }\n pub fn from_primitive(_: %s) -> Option<Self> { None }\n pub fn to_display_str(&self) -> u8 { 0 }\n pub fn from_str(_: &str) -> Option<Self> { None }\n" % (prim, prim)
    return o + "}\n"


class Alias(Elem):
    """[u8; n] under a type alias: a type the derive knows nothing about."""
    width = None

    def __init__(self, n):
        self.n = n
        self.rust = "Bytes%d" % n
        self.decl = (self,)
        self.slot = range(8 * n - 7, 8 * n + 1)
        self.name = self.rust

    def leaves(self, w, lsb):
        miss = 8 * self.n - w
        return [Leaf("U", max(0, i * 8 - miss), 8, False, 8, False, cut=miss if i == 0 else 0, name="[%d]" % i) for i in range(self.n)]

    def source(self):
        return "pub type %s = [u8; %d];\n" % (self.rust, self.n)

    def glue(self):
        return ""


class Nest(Elem):
    width = None

    def __init__(self, s, slot=None):
        self.s = s
        self.rust = s.name
        total = 8 * s.nbytes
        self.decl = tuple(s.deps()) + (s,)
        self.slot = slot or range(max(1, total - 7), total + 1)

    def leaves(self, w, lsb):
        miss = 8 * self.s.nbytes - w
        r = []
        for l in self.s.all_leaves():
            end = l.off + l.width - l.cut
            if end <= miss:
                cut, off = l.width, 0
            elif l.off < miss:
                cut, off = l.cut + miss - l.off, 0
            else:
                cut, off = l.cut, l.off - miss
            r.append(Leaf(l.kind, off, l.width, l.lsb, l.native, l.signed, l.disc, cut, "." + l.name))
        return r


class Field:
    """start: MSB0 bit; elem; count: None or array length; ew: slot width of one element.
    endian: text of the endian attribute or None. pos: attribute text, or a notation name
    (see Struct.attr)."""

    def __init__(self, elem, start, ew=None, count=None, endian=None, pos="range", name=None, extra=()):
        self.elem, self.start, self.count, self.endian, self.pos, self.name = elem, start, count, endian, pos, name
        self.ew = elem.width if ew is None else ew
        assert self.ew, elem.rust
        assert self.ew == elem.width or (elem.slot is not None and self.ew in elem.slot), (elem.rust, self.ew)
        self.extra = extra

    @property
    def width(self):
        return self.ew * (self.count or 1)

    @property
    def end(self):
        return self.start + self.width - 1


LITTLE = ("lsb", "le")


class Struct:
    def __init__(self, name, fields, numbering="msb0", size_bytes=None, endian=None, nbits=None, derives="Debug", style=()):
        self.style = frozenset(style)
        self.name, self.fields, self.numbering, self.size_bytes, self.endian = name, fields, numbering, size_bytes, endian
        for i, f in enumerate(fields):
            if f.name is None:
                f.name = "f%d" % i
        last = max([f.end + 1 for f in fields] or [0])
        self.nbits = size_bytes * 8 if size_bytes else last
        self.nbytes = (self.nbits + 7) // 8
        assert last <= self.nbytes * 8
        self.derives = derives
        self._leaves = None

    def deps(self):
        r = []
        for f in self.fields:
            for d in f.elem.decl:
                if d not in r:
                    r.append(d)
        return r

    def field_lsb(self, f):
        e = f.endian if f.endian is not None else self.endian
        return e is not None and e.lower() in LITTLE

    def all_leaves(self):
        if self._leaves is None:
            r = []
            for f in self.fields:
                for i in range(f.count or 1):
                    p = f.name + ("[%d]" % i if f.count else "")
                    for l in f.elem.leaves(f.ew, self.field_lsb(f)):
                        r.append(l.moved(f.start + i * f.ew, p))
            self._leaves = r
        return self._leaves

    def spec(self):
        o = ["S %s %d %d" % (self.name, self.nbytes, self.nbits)] + [l.line() for l in self.all_leaves()]
        for f in self.fields:
            for i in range(f.count or 1):
                s = f.start + i * f.ew
                o.append("X F %s %d %d" % (f.name + ("[%d]" % i if f.count else ""), s, s + f.ew - 1))
        return "\n".join(o) + "\n"

    def attr(self, f, prev_end):
        """attribute text for a field under the numbering of this struct"""
        a = []
        s, e, w = f.start, f.end, f.width
        if self.numbering == "lsb0":
            t = self.size_bytes * 8 - 1
            s, e = t - s, t - e      # s is the high one now
            p = f.pos
            if p in ("range", "hilo"):
                a.append('bits="%d:%d"' % (s, e))
            elif p == "lohi":
                a.append('bits="%d:%d"' % (e, s))
            elif p == "hilo=":
                a.append('bits="%d..=%d"' % (s, e))
            elif p == "lohi=":
                a.append('bits="%d..=%d"' % (e, s))
            elif p == "excl":
                a.append('bits="%d..%d"' % (e, s + 1))
            elif p == "single":
                assert w == 1
                a.append('bits="%d"' % s)
            elif p == "byte":
                assert w == 8 and e % 8 == 0
                a.append('bytes="%d"' % (e // 8))
            elif p == "byteshilo":
                assert w % 8 == 0 and e % 8 == 0
                a.append('bytes="%d:%d"' % (s // 8, e // 8))
            elif p == "byteslohi":
                assert w % 8 == 0 and e % 8 == 0
                a.append('bytes="%d:%d"' % (e // 8, s // 8))
            else:
                a.append(p)
        else:
            p = f.pos
            if p == "range":
                a.append('bits="%d"' % s if w == 1 else 'bits="%d:%d"' % (s, e))
            elif p == "hilo":
                a.append('bits="%d:%d"' % (e, s))
            elif p == "range=":
                a.append('bits="%d..=%d"' % (s, e))
            elif p == "excl":
                a.append('bits="%d..%d"' % (s, e + 1))
            elif p == "single":
                assert w == 1
                a.append('bits="%d"' % s)
            elif p in ("open", "open:"):
                a.append('bits="%d%s"' % (s, ".." if p == "open" else ":"))
            elif p == "bytes":
                assert s % 8 == 0 and w % 8 == 0
                a.append('bytes="%d"' % (s // 8) if w == 8 else 'bytes="%d:%d"' % (s // 8, e // 8))
            elif p == "byteshilo":
                assert s % 8 == 0 and w % 8 == 0
                a.append('bytes="%d:%d"' % (e // 8, s // 8))
            elif p == "bytes=":
                assert s % 8 == 0 and w % 8 == 0
                a.append('bytes="%d..=%d"' % (s // 8, e // 8))
            elif p in ("bytesopen", "bytesopen:"):
                assert s % 8 == 0
                a.append('bytes="%d%s"' % (s // 8, ".." if p == "bytesopen" else ":"))
            elif p == "next":
                assert s == (0 if prev_end is None else prev_end + 1), (self.name, f.name, s, prev_end)
            else:
                a.append(p)
            # state the size when the position does not
            if f.pos in ("open", "open:", "bytesopen", "bytesopen:", "next") and f.ew != f.elem.width and "nosize" not in f.extra:
                if f.count:
                    a.append('element_size_bytes="%d"' % (f.ew // 8) if "bytes" in f.extra else 'element_size_bits="%d"' % f.ew)
                else:
                    a.append('size_bytes="%d"' % (f.ew // 8) if "bytes" in f.extra else 'size_bits="%d"' % f.ew)
        if f.elem.is_enum:
            a.append('ty="enum"')
        if f.endian is not None:
            a.append('endian="%s"' % f.endian)
        a += [x for x in f.extra if "=" in x]
        if "first" in f.extra:
            a = a[::-1]
        if "redundant" in self.style and f.pos not in ("open", "open:", "bytesopen", "bytesopen:", "next"):
            a.append('%ssize_bits="%d"' % ("element_" if f.count else "", f.ew) if f.ew % 8 or f.start % 16 else '%ssize_bytes="%d"' % ("element_" if f.count else "", f.ew // 8))
        return self.styled(a, "packed_field", "    ")

    def styled(self, a, name, indent):
        """the attribute items a as source text: all the spellings mean the same to Rust"""
        s = self.style
        if not a:
            return ""
        for n in (1, 2):
            if "rot%d" % n in s:
                a = a[n % len(a):] + a[:n % len(a)]
        if "reversed" in s:
            a = a[::-1]
        if "raw" in s:
            a = [x.replace('="', '=r"', 1) for x in a]
        if "hash" in s:
            a = [x.replace('="', '=r#"', 1) + "#" for x in a]
        if "escape" in s:
            a = [x.split('="')[0] + '="' + "".join("\\x%02x" % ord(c) for c in x.split('="')[1][:-1]) + '"' for x in a]
        if "spaces" in s:
            a = ["\n        " + x.replace("=", "  =\n  ", 1) + " " for x in a]
        if "comments" in s:
            a = ["/* bits=\"0\" */ " + x.replace("=", "/* = */=", 1) for x in a]
        groups = [[x] for x in a] if "split" in s else [a[:1], a[1:]] if "two" in s and len(a) > 1 else [a]
        o = []
        for g in groups:
            x = "%s(%s)" % (name, ", ".join(g) + ("," if "trail" in s else ""))
            if "bare" in s:
                x = "%s%s" % (name, "{%s}" % ", ".join(g) if len(o) % 2 else "[%s]" % ", ".join(g))
            if "cfg" in s:
                x = "cfg_attr(all(), %s)" % x
            o.append("#[%s]\n%s" % (x, indent))
            if "docs" in s:
                o.append("/// bits=\"1\"\n%s#[allow(dead_code)]\n%s" % (indent, indent))
        if "docs" in s:
            o.insert(0, "#[doc = \"packed_field(bits=\\\"5\\\")\"]\n%s" % indent)
        return "".join(o)

    def source(self):
        a = []
        if self.numbering:
            a.append('bit_numbering="%s"' % self.numbering)
        if self.size_bytes:
            a.append('size_bytes="%d"' % self.size_bytes)
        if self.endian:
            a.append('endian="%s"' % self.endian)
        st = self.style
        if "upper" in st:
            a = [x.replace("msb0", "MSB0").replace("lsb0", "Lsb0") for x in a]
        o = "#[derive(PackedStruct%s)]\n" % (", " + self.derives if self.derives else "")
        if "derives" in st and self.derives:
            o = "#[derive(%s, PackedStruct)]\n" % self.derives
        if "derive2" in st and self.derives:
            o = "#[derive(%s)]\n#[derive(PackedStruct)]\n" % self.derives
        if "lints" in st:
            o = "#[allow(clippy::all)]\n/// a structure\n///\n" + o + "#[must_use]\n#[repr(C)]\n"
        o += self.styled(a, "packed_struct", "")
        vis = "" if "private" in st else "pub(crate) " if "crate" in st else "pub(in self) " if "self" in st else "pub "
        o += "%sstruct %s {\n" % (vis if "crate" in st else "pub ", self.name)
        prev = None
        for k, f in enumerate(self.fields):
            t = f.elem.rust
            if "turbofish" in st:
                t = t.replace("Bits::<", "Bits<")
            if "wide types" in st:
                t = t.replace("<", " < ").replace(">", " > ").replace("::", " :: ")
            if "commas" in st and t.endswith(">") and "EnumCatchAll" not in t:
                t = t[:-1] + ",>"
            if "padded" in st:
                import re
                t = re.sub(r"Bits::<(\d+)>", lambda m: "Bits::<0%s>" % m.group(1), t)
            for how, form in (("hex width", "0x%X"), ("octal width", "0o%o"), ("suffixed width", "%dusize"), ("brace width", "{ %d }"), ("underscored width", "%d")):
                if how in st:
                    import re
                    t = re.sub(r"Bits(::)? *< *(\d+)", lambda m: m.group(0)[:-len(m.group(2))] + ("_".join(m.group(2)) if "under" in how else form % int(m.group(2))), t)
            if f.count:
                n = str(f.count)
                if "len" in st:
                    n = ("%dusize" % f.count, "0x%x" % f.count, "0b%s" % bin(f.count)[2:], "0%d" % f.count, "%d_" % f.count)[k % 5]
                t = "[%s; %s]" % (t, n)
            o += "    %s%s%s: %s%s\n" % (self.attr(f, prev), vis, f.name, t, "" if "last" in st and k == len(self.fields) - 1 else ",")
            prev = f.end
        return o + "}\n" + (decoys(self.name, self.nbytes) if "decoys" in st else "")

    def glue(self, show=False):
        o = "impl mc::Leaf for %s {\n const N: usize = %d;\n fn set(_v: &[i128]) -> Self { %s {" % (self.name, len(self.all_leaves()), self.name)
        i = 0
        for f in self.fields:
            n = len(f.elem.leaves(f.ew, False)) * (f.count or 1)
            o += " %s: mc::Leaf::set(&_v[%d..%d])," % (f.name, i, i + n)
            i += n
        o += " } }\n fn get(&self, _o: &mut Vec<i128>) {"
        for f in self.fields:
            o += " self.%s.get(_o);" % f.name
        o += " } }\n"
        if show:
            o += "fn lines_%s(v: &[i128]) -> Vec<String> { let x = <%s as mc::Leaf>::set(v); vec![" % (self.name, self.name)
            for f in self.fields:
                for i in range(f.count or 1):
                    o += "format!(\"{:?}\", x.%s%s), " % (f.name, "[%d]" % i if f.count else "")
            o += "] }\n"
        return o

    def case(self, show=False, slices=False):
        o = "mc::Case::of::<%s>()" % self.name
        if slices:
            o += ".with_slice::<%s>()" % self.name
        if show:
            o += ".with_show(mc::show::show::<%s>, lines_%s)" % (self.name, self.name)
        return o


PRELUDE = "#![allow(dead_code, unused_imports, non_snake_case, non_camel_case_types, non_upper_case_globals, clippy::all)]\nuse packed_struct::prelude::*;\nuse mc::Leaf;\n"


def shard_source(structs, show=False, slices=False, header=""):
    """Rust source of one shard, the spec text, and {line number: struct name} for diagnostics."""
    src = PRELUDE + header
    done, owner = [], []
    lines = src.count("\n")

    def add(text, who):
        nonlocal src, lines
        n = text.count("\n")
        owner.append((lines + 1, lines + n, who))
        src += text
        lines += n
    for s in structs:
        for d in s.deps() + [s]:
            if d.name in done:
                continue
            done.append(d.name)
            add(d.source() + d.glue(show=show) if isinstance(d, Struct) else d.source() + d.glue(), s.name)
    add("static CASES: &[mc::Case] = &[\n" + "".join("    %s,\n" % s.case(show, slices) for s in structs) + "];\n", None)
    add("fn main() { mc::codec::run(CASES) }\n", None)
    return src, "".join(s.spec() for s in structs), owner
