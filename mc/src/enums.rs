//! Primitive enums: every declared discriminant, every other value, every string near a name.
use crate::report::*;

/// What the implementation offers for one enum, over plain numbers. Variants are named by their index
/// in declaration order; a catch-all value is (true, variant) or (false, primitive).
pub struct EnumCase {
    pub name: &'static str,
    pub prim: fn() -> (&'static str, u32, bool),
    pub idents: &'static [&'static str],
    /// the discriminants as the compiler assigns them
    pub discs: fn() -> Vec<i128>,
    pub to: fn(usize) -> i128,
    pub from: fn(i128) -> Option<i128>,
    pub from_str: fn(&str) -> Option<i128>,
    pub from_str_lower: fn(&str) -> Option<i128>,
    pub show: fn(usize) -> (String, String),
    pub all: fn() -> (Vec<i128>, Vec<i128>),
    pub c_from: fn(i128) -> Option<(bool, i128)>,
    pub c_to: fn((bool, i128)) -> i128,
    pub c_eq: fn((bool, i128), (bool, i128)) -> (bool, bool),
    pub c_show: fn((bool, i128)) -> String,
    pub c_str: fn(&str) -> (Option<(bool, i128)>, Option<(bool, i128)>),
    pub c_all: fn() -> Vec<(bool, i128)>,
    pub c_wrap: fn(usize) -> ((bool, i128), (bool, i128)),
}

pub trait Prim: Copy { const NAME: &'static str; const BITS: u32; const SIGNED: bool; fn wrap(x: i128) -> Self; fn num(self) -> i128; }
macro_rules! prims { ($($t:ident $s:expr),*) => { $( impl Prim for $t { const NAME: &'static str = stringify!($t); const BITS: u32 = <$t>::BITS; const SIGNED: bool = $s; fn wrap(x: i128) -> Self { x as $t } fn num(self) -> i128 { self as i128 } } )* } }
prims!(u8 false, i8 true, u16 false, i16 true, u32 false, i32 true, u64 false, i64 true);

#[macro_export]
macro_rules! enum_case { ($e:ident, [$($v:ident)*]) => { {
    use packed_struct::{PrimitiveEnum, PrimitiveEnumStaticStr, PrimitiveEnumDynamicStr, EnumCatchAll};
    use $crate::enums::Prim;
    type P = <$e as PrimitiveEnum>::Primitive;
    type C = EnumCatchAll<$e>;
    const V: &[$e] = &[$($e::$v),*];
    fn at(i: i128) -> $e { V[i as usize] }
    /// a variant as its index
    fn ix(v: $e) -> i128 { V.iter().position(|x| *x as i128 == v as i128).unwrap() as i128 }
    fn mk((d, x): (bool, i128)) -> C { if d { EnumCatchAll::Enum(at(x)) } else { EnumCatchAll::CatchAll(<P as Prim>::wrap(x)) } }
    fn un(c: C) -> (bool, i128) { match c { EnumCatchAll::Enum(e) => (true, ix(e)), EnumCatchAll::CatchAll(p) => (false, Prim::num(p)) } }
    $crate::enums::EnumCase {
        name: stringify!($e),
        prim: || (<P as Prim>::NAME, <P as Prim>::BITS, <P as Prim>::SIGNED),
        idents: &[$(stringify!($v)),*],
        discs: || vec![$($e::$v as i128),*],
        to: |i| Prim::num(V[i].to_primitive()),
        from: |x| <$e as PrimitiveEnum>::from_primitive(<P as Prim>::wrap(x)).map(ix),
        from_str: |s| <$e as PrimitiveEnum>::from_str(s).map(ix),
        from_str_lower: |s| <$e as PrimitiveEnum>::from_str_lower(s).map(ix),
        show: |i| (PrimitiveEnumStaticStr::to_display_str(&V[i]).to_string(), PrimitiveEnumDynamicStr::to_display_str(&V[i]).into_owned()),
        all: || (<$e as PrimitiveEnumStaticStr>::all_variants().iter().map(|x| ix(*x)).collect(), <$e as PrimitiveEnumDynamicStr>::all_variants().iter().map(|x| ix(*x)).collect()),
        c_from: |x| <C as PrimitiveEnum>::from_primitive(<P as Prim>::wrap(x)).map(un),
        c_to: |c| Prim::num(mk(c).to_primitive()),
        c_eq: |a, b| (mk(a) == mk(b), mk(a) != mk(b)),
        c_show: |c| PrimitiveEnumDynamicStr::to_display_str(&mk(c)).into_owned(),
        c_str: |s| (<C as PrimitiveEnum>::from_str(s).map(un), <C as PrimitiveEnum>::from_str_lower(s).map(un)),
        c_all: || <C as PrimitiveEnumDynamicStr>::all_variants().iter().map(|x| un(*x)).collect(),
        c_wrap: |i| (un(V[i].into()), un(EnumCatchAll::from_enum(V[i]))),
    }
} } }

/// What the specification says about an enum.
pub struct EnumSpec { pub discs: Vec<i128>, /// exact backing type, or the least number of bits
    pub prim: Option<&'static str>, pub bits: u32 }

fn eq<T: PartialEq + std::fmt::Debug>(rep: &mut Report, c: &EnumCase, mode: &str, input: impl FnOnce() -> String, want: T, got: Result<T, String>) {
    rep.trace();
    if !matches!(&got, Ok(g) if *g == want) { rep.violation(c.name, mode, input(), format!("{want:?}"), format!("{got:?}")); }
}

fn range(bits: u32, signed: bool) -> (i128, i128) { if signed { (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1) } else { (0, (1i128 << bits) - 1) } }

/// all values of types up to 16 bits; else the neighbourhood of every declared value, of its images
/// under truncation and sign change, and of every power of two
pub fn values(discs: &[i128], bits: u32, signed: bool, rich: bool) -> Vec<i128> {
    let (lo, hi) = range(bits, signed);
    let mut v: Vec<i128> = vec![];
    if bits <= 16 { v.extend(lo..=hi); return v; }
    let mut centre: Vec<i128> = vec![0, lo, hi];
    for k in 0..bits { centre.push(1 << k); centre.push(-(1i128 << k)); }
    for &d in discs {
        centre.push(d);
        centre.push(-d);
        centre.push(!d);
        for k in 0..bits { centre.push(d ^ (1i128 << k)); centre.push(d + (1i128 << k)); centre.push(d - (1i128 << k)); centre.push(d & ((1i128 << k) - 1)); centre.push(d | !((1i128 << k) - 1)); }
    }
    for c in centre { for e in -3..=3 { v.push(c + e); } }
    let n = if rich { 70_000 } else { 1000 };
    v.extend(-n..=n);
    v.retain(|x| *x >= lo && *x <= hi);
    v.sort();
    v.dedup();
    v
}

pub fn numbers(c: &EnumCase, s: &EnumSpec, rich: bool, rep: &mut Report) {
    rep.begin_case(c.name);
    let real = (c.discs)();
    eq(rep, c, "discriminants", || "the compiler's own".into(), s.discs.clone(), Ok(real.clone()));
    let (_, bits, signed) = (c.prim)();
    for i in 0..c.idents.len() {
        rep.state(&("to", i));
        eq(rep, c, "to_primitive", || c.idents[i].into(), real[i], op(|| (c.to)(i)));
    }
    for x in values(&real, bits, signed, rich) {
        if !rep.state(&("from", x)) { continue; }
        let want = real.iter().position(|d| *d == x).map(|i| i as i128);
        if want.is_some() { rep.outcome(&(c.name, want)); }
        eq(rep, c, "from_primitive", || x.to_string(), want, op(|| (c.from)(x)));
    }
    rep.sample(|| format!("{} = {:?} as {}", c.name, real, (c.prim)().0));
}

pub fn backing(c: &EnumCase, s: &EnumSpec, rep: &mut Report) {
    rep.begin_case(c.name);
    rep.state("type");
    rep.trace();
    let (name, bits, signed) = op(|| (c.prim)()).unwrap();
    let (lo, hi) = range(bits, signed);
    rep.outcome(name);
    let real = (c.discs)();
    let ok = match s.prim { Some(p) => p == name, None => bits >= s.bits && real.iter().all(|d| *d >= lo && *d <= hi) };
    if !ok { rep.violation(c.name, "backing type", format!("discriminants {real:?}"), s.prim.map(|p| p.to_string()).unwrap_or(format!("a type of at least {} bits that holds them", s.bits)), name.into()); }
    for i in 0..c.idents.len() {
        rep.state(&("to", i));
        eq(rep, c, "to_primitive", || c.idents[i].into(), real[i], op(|| (c.to)(i)));
        eq(rep, c, "from_primitive", || real[i].to_string(), Some(i as i128), op(|| (c.from)(real[i])));
    }
    rep.sample(|| format!("{} = {:?} -> {}", c.name, real, name));
}

pub fn catch_all(c: &EnumCase, rich: bool, rep: &mut Report) {
    rep.begin_case(c.name);
    let real = (c.discs)();
    let (_, bits, signed) = (c.prim)();
    let all = values(&real, bits, signed, rich);
    for &x in &all {
        if !rep.state(&("value", x)) { continue; }
        let want = match real.iter().position(|d| *d == x) { Some(i) => (true, i as i128), None => (false, x) };
        eq(rep, c, "from_primitive", || x.to_string(), Some(want), op(|| (c.c_from)(x)));
        eq(rep, c, "to_primitive(from_primitive)", || x.to_string(), x, op(|| (c.c_to)(want)));
        eq(rep, c, "to_primitive", || format!("CatchAll({x})"), x, op(|| (c.c_to)((false, x))));
    }
    // the values whose pairs are compared: every variant, its number as a catch-all, and others nearby
    let (lo, hi) = range(bits, signed);
    let mut pool: Vec<(bool, i128)> = (0..real.len()).map(|i| (true, i as i128)).collect();
    let mut nums: Vec<i128> = real.iter().flat_map(|d| [*d, d + 1, d - 1, d ^ (1 << (bits - 1)), d + 256, d - 256]).chain([0, 1, lo, hi, lo + 1, hi - 1]).collect();
    nums.retain(|x| *x >= lo && *x <= hi);
    nums.sort();
    nums.dedup();
    pool.extend(nums.iter().map(|x| (false, *x)));
    pool.truncate(90);
    let num = |p: (bool, i128)| if p.0 { real[p.1 as usize] } else { p.1 };
    for &a in &pool {
        for &b in &pool {
            if !rep.state(&("pair", a, b)) { continue; }
            let e = num(a) == num(b);
            eq(rep, c, "==", || format!("{a:?} {b:?}"), (e, !e), op(|| (c.c_eq)(a, b)));
        }
        let want = if a.0 { c.idents[a.1 as usize].to_string() } else { format!("Unknown value: {}", a.1) };
        rep.outcome(&want);
        // the unknown value is named; nothing more about the wording is claimed
        let got = op(|| (c.c_show)(a));
        rep.trace();
        let ok = match &got { Ok(g) => if a.0 { *g == want } else { g.split(|ch: char| !ch.is_ascii_digit() && ch != '-').any(|w| w == a.1.to_string()) && !c.idents.contains(&g.as_str()) }, Err(_) => false };
        if !ok { rep.violation(c.name, "display", format!("{a:?}"), want, format!("{got:?}")); }
    }
    for i in 0..real.len() { eq(rep, c, "wrapping", || c.idents[i].into(), ((true, i as i128), (true, i as i128)), op(|| (c.c_wrap)(i))); }
    eq(rep, c, "all_variants", String::new, (0..real.len()).map(|i| (true, i as i128)).collect::<Vec<_>>(), op(|| (c.c_all)()));
    for s in strings(c, rich) {
        if !rep.state(&("string", &s)) { continue; }
        let w = |l: bool| named(c, &s, l).map(|i| (true, i));
        eq(rep, c, "from_str, from_str_lower", || s.clone(), (w(false), w(true)), op(|| (c.c_str)(&s)));
    }
    rep.sample(|| format!("{}: {} values, {} pairs", c.name, all.len(), pool.len() * pool.len()));
}

fn named(c: &EnumCase, s: &str, lower: bool) -> Option<i128> { c.idents.iter().position(|n| if lower { n.to_lowercase() == s } else { *n == s }).map(|i| i as i128) }

/// every identifier; its case variations, prefixes, suffixes; every single insertion, deletion and
/// replacement; every case pattern of names up to 10 (14) characters; every short word over its letters
pub fn strings(c: &EnumCase, rich: bool) -> Vec<String> {
    let mut v: Vec<String> = ["", " ", "\0", "unknown", "Unknown value: 0", "0", "1", "-1", c.name, "_", "Some", "None"].iter().map(|s| s.to_string()).collect();
    let mut letters: Vec<char> = vec![];
    for n in c.idents {
        let ch: Vec<char> = n.chars().collect();
        for x in &ch { if !letters.contains(x) { letters.push(*x) } }
        v.extend([n.to_string(), n.to_lowercase(), n.to_uppercase(), format!("{}::{n}", c.name), format!("r#{n}"), format!("{n} "), format!(" {n}"), n.repeat(2), n.replace('_', ""), n.replace('_', "-")]);
        let alphabet: Vec<char> = if rich { (32u8..127).map(|b| b as char).collect() } else { "aAzZ0_ é".chars().chain(ch.iter().cloned()).collect() };
        for i in 0..=ch.len() {
            v.push(ch[..i].iter().collect());
            v.push(ch[i..].iter().collect());
            for a in &alphabet { let mut w = ch.clone(); w.insert(i, *a); v.push(w.iter().collect()); if i < ch.len() { let mut w = ch.clone(); w[i] = *a; v.push(w.iter().collect()); } }
            if i < ch.len() { let mut w = ch.clone(); w.remove(i); v.push(w.iter().collect()); }
            if i + 1 < ch.len() { let mut w = ch.clone(); w.swap(i, i + 1); v.push(w.iter().collect()); }
        }
        if ch.len() <= if rich { 14 } else { 10 } {
            for m in 0..1u32 << ch.len() { v.push(ch.iter().enumerate().map(|(i, x)| if m >> i & 1 == 1 { x.to_uppercase().to_string() } else { x.to_lowercase().to_string() }).collect()); }
        }
    }
    for a in c.idents { for b in c.idents { v.push(format!("{a}{b}")); v.push(format!("{a}|{b}")); } }
    letters.truncate(if rich { 12 } else { 6 });
    let mut words = vec![String::new()];
    for _ in 0..3 { words = words.iter().flat_map(|w| letters.iter().flat_map(move |l| [format!("{w}{l}"), format!("{w}{}", l.to_lowercase())])).collect(); words.sort(); words.dedup(); v.extend(words.iter().cloned()); }
    v.sort();
    v.dedup();
    v
}

pub fn names(c: &EnumCase, rich: bool, rep: &mut Report) {
    rep.begin_case(c.name);
    for (i, n) in c.idents.iter().enumerate() {
        rep.state(&("show", i));
        eq(rep, c, "to_display_str", || n.to_string(), (n.to_string(), n.to_string()), op(|| (c.show)(i)));
    }
    let order: Vec<i128> = (0..c.idents.len() as i128).collect();
    rep.state("all");
    eq(rep, c, "all_variants", String::new, (order.clone(), order), op(|| (c.all)()));
    for s in strings(c, rich) {
        if !rep.state(&s) { continue; }
        rep.outcome(&(named(c, &s, false), named(c, &s, true)));
        eq(rep, c, "from_str", || s.clone(), named(c, &s, false), op(|| (c.from_str)(&s)));
        eq(rep, c, "from_str_lower", || s.clone(), named(c, &s, true), op(|| (c.from_str_lower)(&s)));
    }
    rep.sample(|| format!("{} {:?}", c.name, c.idents));
}

/// modes: numbers, backing, catchall, names
pub fn run(cases: &[(EnumCase, EnumSpec)]) {
    init();
    let a: Vec<String> = std::env::args().collect();
    let rich = a[2] == "thorough";
    let mut rep = Report::default();
    for (c, s) in cases {
        if a.len() > 3 && a[3] != c.name { continue; }
        match a[1].as_str() {
            "numbers" => numbers(c, s, rich, &mut rep),
            "backing" => backing(c, s, &mut rep),
            "catchall" => catch_all(c, rich, &mut rep),
            "names" => names(c, rich, &mut rep),
            m => panic!("mode {m}"),
        }
    }
    rep.finish();
}
