//! C25: the runtime visualisation, compared with an independently written renderer.
//! C33: the same operations into writers that fail, at every write and after every number of bytes.
use crate::codec::*;
use crate::leaf::{Leaf, V};
use crate::model::*;
use crate::report::*;
use crate::domain::*;
use packed_struct::debug_fmt::{PackedStructDebug, PackedStructDisplay};
use packed_struct::{PackedStruct, PackedStructInfo};
use std::fmt::{Display, Write};

/// flags: 1 header, 2 decimal, 4 hex, 8 binary, 16 fields; 255: the Display implementation itself;
/// 254: the formatter object with its defaults
/// 253: the field listing alone, through the trait
pub fn show<T: PackedStruct + PackedStructDebug + Display + Leaf + PackedStructInfo>(v: &[V], flags: u8, w: &mut dyn Write) -> std::fmt::Result {
    let x = T::set(v);
    if flags == 255 { return write!(w, "{x}"); }
    if flags == 253 {
        struct Listing<'a, T>(&'a T);
        impl<T: PackedStructDebug> Display for Listing<'_, T> {
            fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { self.0.fmt_fields(f) }
        }
        return write!(w, "{}", Listing(&x));
    }
    let mut d = PackedStructDisplay::new(&x);
    if flags != 254 {
        d.header = flags & 1 != 0;
        d.raw_decimal = flags & 2 != 0;
        d.raw_hex = flags & 4 != 0;
        d.raw_binary = flags & 8 != 0;
        d.fields = flags & 16 != 0;
    }
    write!(w, "{d}")
}

/// A writer that refuses: mode 0 the `limit`th call only, mode 1 that call and all later ones, mode 2 whatever
/// lies beyond `limit` bytes (taking the part of the piece that fits).
struct Failing { text: String, calls: usize, mode: u8, limit: usize, refused: bool, late: usize }

impl Write for Failing {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.refused { self.late += 1; }
        let n = self.calls;
        self.calls += 1;
        let refuse = match self.mode { 0 => n == self.limit, 1 => n >= self.limit, _ => self.text.len() + s.len() > self.limit };
        if !refuse { self.text.push_str(s); return Ok(()); }
        if self.mode == 2 && !self.refused { let mut k = self.limit - self.text.len(); while !s.is_char_boundary(k) { k -= 1; } self.text.push_str(&s[..k]); }
        self.refused = true;
        Err(std::fmt::Error)
    }
}

/// Every point at which the writer can fail. `cap`: beyond this many, the first and the last half of them.
pub fn failing(case: &str, input: &str, cap: usize, write: &dyn Fn(&mut dyn Write) -> std::fmt::Result, rep: &mut Report) {
    let mut run = |mode: u8, limit: usize, rep: &mut Report| {
        let mut w = Failing { text: String::new(), calls: 0, mode, limit, refused: false, late: 0 };
        let r = op(|| write(&mut w));
        rep.trace();
        (r, w)
    };
    let (r, all) = run(1, usize::MAX, rep);
    if r != Ok(Ok(())) { rep.violation(case, "showfail", format!("{input}, a writer that takes everything"), "Ok".into(), format!("{r:?}")); return; }
    for (mode, n) in [(0, all.calls), (1, all.calls), (2, all.text.len())] {
        for limit in (0..n).filter(|&k| k < cap / 2 || k + cap / 2 >= n) {
            if !rep.state(&(input, mode, limit)) { continue; }
            let (r, w) = run(mode, limit, rep);
            rep.outcome(&w.text);
            // the writer has to come to its failure, and nothing follows it
            let prefix = all.text.starts_with(&w.text) && (mode != 2 || w.text.len() == limit || !all.text.is_char_boundary(limit));
            if r != Ok(Err(std::fmt::Error)) || w.late != 0 || !prefix || !w.refused {
                rep.violation(case, "showfail", format!("{input}, failure {} {limit} ({})", if mode == 2 { "after byte" } else { "at write" }, ["once", "from then on", "from then on"][mode as usize]),
                    "Err, nothing written after the failure".into(), format!("{r:?}, {} more writes, {} of {} bytes accepted, the text so far {}", w.late, w.text.len(), all.text.len(), if prefix { "is a prefix" } else { "is not a prefix" }));
                return;
            }
        }
    }
    rep.sample(|| format!("{case} {input}: {} writes, {} bytes", all.calls, all.text.len()));
}

pub fn showfail_mode(s: &Spec, c: &Case, cfg: &Cfg, rep: &mut Report) {
    let (show, _) = match c.show { Some(x) => x, None => panic!("no show functions for {}", s.name) };
    for bg in 0..if cfg.rich { cfg.bgs } else { 2 } {
        let v: Vec<V> = s.leaves.iter().enumerate().map(|(i, l)| background(l, i, bg)).collect();
        for fl in (0..32).chain([253, 254, 255]) {
            if bg > 0 && !cfg.rich && fl < 255 { continue; }
            failing(&s.name, &format!("{} flags {fl}", show_v(&v)), if cfg.light { 100 } else if cfg.rich { 100_000 } else { 400 }, &|w| show(&v, fl, w), rep);
        }
    }
}

struct F { name: String, start: usize, end: usize }

fn render(s: &Spec, fields: &[F], labels: &[String], bytes: &[u8], flags: u8) -> String {
    let mut o = String::new();
    let n = bytes.len();
    if flags & 1 != 0 { o += &format!("{} ({} {})\r\n\r\n", s.name, n, if n == 1 { "byte" } else { "bytes" }); }
    let list = |f: &dyn Fn(u8) -> String| format!("[{}]\r\n\r\n", bytes.iter().map(|&b| f(b)).collect::<Vec<_>>().join(", "));
    if flags & 2 != 0 { o += "Decimal\r\n"; o += &list(&|b| b.to_string()); }
    if flags & 4 != 0 { o += "Hex\r\n"; o += &list(&|b| format!("0x{b:X}")); }
    if flags & 8 != 0 { o += "Binary\r\n"; o += &list(&|b| format!("0b{}", (0..8).map(|i| if b >> (7 - i) & 1 == 1 { '1' } else { '0' }).collect::<String>())); }
    if flags & 16 != 0 && !fields.is_empty() {
        let namew = fields.iter().map(|f| f.name.len()).max().unwrap() + 1;
        let span = fields.iter().map(|f| f.end - f.start).max().unwrap();
        for (f, l) in fields.iter().zip(labels) {
            let pad = " ".repeat(namew - f.name.len());
            if span > 32 {
                o += &format!("{pad}{} | {:?}\r\n", f.name, l);
            } else {
                let bits: String = (f.start..=f.end).map(|i| if get_bit(bytes, i) { '1' } else { '0' }).collect();
                let s0 = f.start.to_string();
                let e0 = f.end.to_string();
                o += &format!("{pad}{} | bits {}{}:{}{} | 0b{}{} | {:?}\r\n", f.name,
                    " ".repeat(3usize.saturating_sub(s0.len())), s0, e0, " ".repeat(3usize.saturating_sub(e0.len())),
                    bits, " ".repeat(span - (f.end - f.start)), l);
            }
        }
    }
    o
}

pub fn show_mode(s: &Spec, c: &Case, cfg: &Cfg, only: Option<&str>, rep: &mut Report) {
    let (show, labels) = match c.show { Some(x) => x, None => panic!("no show functions for {}", s.name) };
    let fields: Vec<F> = s.extra.iter().filter_map(|x| {
        let f: Vec<&str> = x.split(' ').collect();
        if f[0] == "F" { Some(F { name: f[1].into(), start: f[2].parse().unwrap(), end: f[3].parse().unwrap() }) } else { None }
    }).collect();
    let mut bytes = vec![];
    let mut one = |v: &[V], flagset: &[u8], rep: &mut Report| {
        s.pack(v, &mut bytes);
        let lab = labels(v);
        for &fl in flagset {
            if !rep.state(&(v, fl)) { continue; }
            let got = op(|| { let mut w = String::new(); show(v, fl, &mut w).map(|_| w) });
            rep.trace();
            let want = render(s, &fields, &lab, &bytes, if fl >= 254 { 31 } else if fl == 253 { 16 } else { fl });
            rep.outcome(&got);
            if got.as_ref() != Ok(&Ok(want.clone())) {
                rep.violation(&s.name, "show", show_v(v), format!("flags {fl}: {want}"), format!("{got:?}"));
                return;
            }
        }
        rep.sample(|| format!("{} {} flags {:?}", s.name, show_v(v), flagset.len()));
    };
    if let Some(o) = only { one(&parse_values(o), &[255, 254, 253, 31, 0], rep); return; }
    let all: Vec<u8> = (0..32).chain([253, 254, 255]).collect();
    for bg in 0..cfg.bgs {
        let v: Vec<V> = s.leaves.iter().enumerate().map(|(i, l)| background(l, i, bg)).collect();
        one(&v, &all, rep);
        for i in 0..v.len() {
            let mut w = v.clone();
            for x in corner(&s.leaves[i]) { w[i] = x; one(&w, &[255], rep); }
        }
    }
}

/// DebugBinaryByteSlice over every bit range of small byte strings
pub fn binary_slices(rep: &mut Report, n: usize) {
    use packed_struct::debug_fmt::DebugBinaryByteSlice;
    rep.begin_case("DebugBinaryByteSlice");
    let pats: Vec<Vec<u8>> = (0..4).map(|p| (0..n).map(|i| match p { 0 => 0xA5, 1 => (i as u8).wrapping_mul(0x35) ^ 0x0F, 2 => 1 << (i % 8), _ => !(1 << (7 - i % 8)) }).collect()).collect();
    for b in &pats {
        for start in 0..n * 8 { for end in start..n * 8 {
            if !rep.state(&(b, start, end)) { continue; }
            let r = start..end;
            let got = op(|| format!("{:b}", DebugBinaryByteSlice { bits: &r, slice: b }));
            rep.trace();
            let want: String = (start..=end).map(|i| if get_bit(b, i) { '1' } else { '0' }).collect();
            if got.as_ref() != Ok(&want) { rep.violation("DebugBinaryByteSlice", "show", format!("{start}..={end} of {}", show_b(b)), want, format!("{got:?}")); return; }
        } }
    }
}
