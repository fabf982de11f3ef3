//! Exhaustive exploration of derived structures against the reference model.
use crate::domain::*;
use crate::leaf::{Leaf, V};
use crate::model::*;
use crate::report::*;
use packed_struct::{PackedStruct, PackedStructInfo, PackedStructSlice, PackingError};
use packed_struct::types::bits::ByteArray;

pub type ShowFn = fn(&[V], u8, &mut dyn std::fmt::Write) -> std::fmt::Result;
pub type R<T> = Result<T, PackingError>;

#[derive(Clone, Copy)]
pub struct SliceOps {
    pub pack: fn(&[V], &mut [u8]) -> R<()>,
    pub unpack: fn(&[u8], &mut Vec<V>) -> R<()>,
    pub pack_vec: fn(&[V]) -> R<Vec<u8>>,
    pub size: fn(Option<&[V]>) -> R<usize>,
}

/// Type-erased operations of one derived structure.
#[derive(Clone, Copy)]
pub struct Case {
    pub n: usize,
    pub nbytes: fn() -> usize,
    pub nbits: fn() -> usize,
    pub pack: fn(&[V], &mut Vec<u8>) -> R<()>,
    pub unpack: fn(&[u8], &mut Vec<V>) -> R<()>,
    pub slice: Option<SliceOps>,
    pub show: Option<(ShowFn, fn(&[V]) -> Vec<String>)>,
}

impl Case {
    pub const fn of<T: PackedStruct + PackedStructInfo + Leaf>() -> Case {
        Case {
            n: T::N,
            nbytes: || <T::ByteArray as ByteArray>::len(),
            nbits: || <T as PackedStructInfo>::packed_bits(),
            pack: |v, out| { let p = T::set(v).pack()?; out.clear(); out.extend_from_slice(p.as_bytes_slice()); Ok(()) },
            unpack: |b, out| {
                let mut a = <T::ByteArray as ByteArray>::new(0);
                a.as_mut_bytes_slice().copy_from_slice(b);
                let x = T::unpack(&a)?;
                out.clear();
                x.get(out);
                Ok(())
            },
            slice: None,
            show: None,
        }
    }
    pub const fn with_slice<T: PackedStruct + Leaf>(mut self) -> Case {
        self.slice = Some(SliceOps {
            pack: |v, b| T::set(v).pack_to_slice(b),
            unpack: |b, out| { let x = T::unpack_from_slice(b)?; out.clear(); x.get(out); Ok(()) },
            #[cfg(not(feature = "lean"))]
            pack_vec: |v| T::set(v).pack_to_vec(),
            #[cfg(feature = "lean")]
            pack_vec: |v| { let mut b = vec![0; T::packed_bytes_size(None)?]; T::set(v).pack_to_slice(&mut b)?; Ok(b) },
            size: |v| match v { Some(v) => T::packed_bytes_size(Some(&T::set(v))), None => T::packed_bytes_size(None) },
        });
        self
    }
    pub const fn with_show(mut self, f: ShowFn, l: fn(&[V]) -> Vec<String>) -> Case { self.show = Some((f, l)); self }
}

pub struct Cfg { pub light: bool, pub full: usize, pub rich: bool, pub all2: bool, pub bgs: usize, pub pairs: bool }

impl Cfg {
    pub fn tier(t: &str) -> Cfg {
        if t == "small" { Cfg { light: true, full: 5, rich: false, all2: false, bgs: 2, pairs: false } }
        else if t == "thorough" { Cfg { light: false, full: 12, rich: true, all2: true, bgs: BGS, pairs: true } }
        else { Cfg { light: false, full: 8, rich: false, all2: false, bgs: BGS, pairs: true } }
    }
}

/// Every assignment that the bounds describe: per background each leaf over its whole domain, and
/// each pair of neighbouring leaves over their corner values.
pub fn assignments(s: &Spec, c: &Cfg, with_wild: bool, f: &mut dyn FnMut(&[V])) {
    let n = s.leaves.len();
    let doms: Vec<Vec<V>> = s.leaves.iter().map(|l| {
        let mut d = values(l, c.full, c.rich);
        if with_wild { d.extend(wild(l)); } else { d.retain(|&v| l.fits(v)); }
        d
    }).collect();
    let light: Vec<Vec<V>> = s.leaves.iter().enumerate().map(|(i, l)| {
        if c.rich || l.width <= c.full { return doms[i].clone(); }
        let mut d = values_light(l);
        if with_wild { d.extend(wild(l)); } else { d.retain(|&v| l.fits(v)); }
        d
    }).collect();
    let mut v: Vec<V> = vec![0; n];
    for bg in 0..c.bgs {
        let base: Vec<V> = s.leaves.iter().enumerate().map(|(i, l)| {
            let b = background(l, i, bg);
            if with_wild || l.fits(b) { b } else { *doms[i].first().unwrap_or(&0) }
        }).collect();
        v.copy_from_slice(&base);
        f(&v);
        for i in 0..n {
            for &x in if bg == 0 && !c.light { &doms[i] } else { &light[i] } { v[i] = x; f(&v); }
            v[i] = base[i];
        }
        if c.pairs && bg < 2 {
            for i in 0..n { for j in [i + 1, i + 2] { if j < n {
                for &x in &corner(&s.leaves[i]) { for &y in &corner(&s.leaves[j]) {
                    if !with_wild && !(s.leaves[i].fits(x) && s.leaves[j].fits(y)) { continue; }
                    v[i] = x; v[j] = y; f(&v);
                } }
                v[i] = base[i]; v[j] = base[j];
            } } }
        }
    }
}

/// Byte arrays: the generic ones plus, for valid packings, every flip of one or two unclaimed bits and
/// every replacement of one field's raw content.
pub fn arrays(s: &Spec, c: &Cfg, f: &mut dyn FnMut(&[u8])) {
    if c.light { few_buffers(s.nbytes, f) } else { buffers(s.nbytes, c.all2, c.rich, f) }
    if s.nbytes > 2 || (s.nbytes == 2 && !c.all2) {
        let mut v: Vec<V> = vec![];
        let mut b = vec![];
        let unclaimed: Vec<usize> = (0..s.nbytes * 8).filter(|&i| !get_bit(&s.claimed, i) && (s.nbytes <= 1500 || sampled(i / 8, s.nbytes))).collect();
        for bg in 0..c.bgs {
            v.clear();
            v.extend(s.leaves.iter().enumerate().map(|(i, l)| background(l, i, bg)));
            s.pack(&v, &mut b);
            f(&b);
            for (k, &i) in unclaimed.iter().enumerate() {
                let x = get_bit(&b, i);
                set_bit(&mut b, i, !x);
                f(&b);
                if let Some(&j) = unclaimed.get(k + 1) { set_bit(&mut b, j, true); f(&b); set_bit(&mut b, j, false); }
                set_bit(&mut b, i, x);
            }
            for &i in &unclaimed { set_bit(&mut b, i, true); }
            f(&b);
            for l in &s.leaves {
                let w = l.width - l.cut;
                let keep = b.clone();
                if w <= 64 {
                    for p in if (bg == 0 && !c.light) || c.rich || w <= c.full { patterns(w, c.full, false) } else { light_patterns(w) } {
                        for k in 0..w { set_bit(&mut b, l.start + k, p >> (w - 1 - k) & 1 == 1); }
                        f(&b);
                    }
                } else {
                    for k in 0..w { set_bit(&mut b, l.start + k, !get_bit(&keep, l.start + k)); f(&b); }
                }
                b.copy_from_slice(&keep);
            }
        }
    }
}

pub fn show_v(v: &[V]) -> String { format!("{:?}", v) }
pub fn show_b(b: &[u8]) -> String { format!("[{}]", b.iter().map(|x| format!("0x{:02x}", x)).collect::<Vec<_>>().join(", ")) }

fn sizes_ok(s: &Spec, c: &Case, rep: &mut Report, mode: &str) -> bool {
    let n = (c.nbytes)();
    if n != s.nbytes || c.n != s.leaves.len() {
        rep.violation(&s.name, mode, "size".into(), format!("{} bytes, {} leaves", s.nbytes, s.leaves.len()), format!("{} bytes, {} leaves", n, c.n));
        return false;
    }
    true
}

pub fn explore(s: &Spec, c: &Case, cfg: &Cfg, mode: &str, only: Option<&str>, rep: &mut Report) {
    rep.begin_case(&s.name);
    if mode != "size" && !sizes_ok(s, c, rep, mode) { return; }
    match mode {
        "pack" => values_mode(s, c, cfg, mode, only, true, rep),
        "roundtrip" => values_mode(s, c, cfg, mode, only, false, rep),
        "unpack" | "repack" | "total" => bytes_mode(s, c, cfg, mode, only, rep),
        "size" => size_mode(s, c, rep),
        "slice" => slice_mode(s, c, cfg, rep),
        #[cfg(not(feature = "lean"))]
        "show" => crate::show::show_mode(s, c, cfg, only, rep),
        #[cfg(not(feature = "lean"))]
        "showfail" => crate::show::showfail_mode(s, c, cfg, rep),
        m => panic!("mode {m}"),
    }
}

fn parse_v(s: &str) -> Vec<V> { s.trim_matches(|c| c == '[' || c == ']').split(',').filter(|x| !x.trim().is_empty()).map(|x| x.trim().parse().unwrap()).collect() }
fn parse_b(s: &str) -> Vec<u8> { s.trim_matches(|c| c == '[' || c == ']').split(',').filter(|x| !x.trim().is_empty()).map(|x| u8::from_str_radix(x.trim().trim_start_matches("0x"), 16).unwrap()).collect() }
pub fn parse_values(s: &str) -> Vec<V> { parse_v(s) }

fn values_mode(s: &Spec, c: &Case, cfg: &Cfg, mode: &str, only: Option<&str>, wild: bool, rep: &mut Report) {
    let (mut got, mut want, mut back) = (vec![], vec![], vec![]);
    let mut one = |v: &[V], rep: &mut Report| {
        if !rep.state(v) { return; }
        let r = op(|| (c.pack)(v, &mut got));
        rep.trace();
        match r {
            Ok(Ok(())) => (),
            Ok(Err(e)) => { rep.violation(&s.name, mode, show_v(v), "pack succeeds".into(), format!("{e:?}")); return }
            Err(p) => { rep.violation(&s.name, mode, show_v(v), "pack succeeds".into(), p); return }
        }
        rep.outcome(&got);
        if mode == "pack" {
            s.pack(v, &mut want);
            if got != want { rep.violation(&s.name, mode, show_v(v), show_b(&want), show_b(&got)); }
        } else {
            match op(|| (c.unpack)(&got, &mut back)) {
                Ok(Ok(())) => if back != v { rep.violation(&s.name, mode, show_v(v), show_v(v), format!("{} via {}", show_v(&back), show_b(&got))); },
                Ok(Err(e)) => rep.violation(&s.name, mode, show_v(v), "unpack succeeds".into(), format!("{e:?} via {}", show_b(&got))),
                Err(p) => rep.violation(&s.name, mode, show_v(v), "unpack succeeds".into(), p),
            }
        }
        rep.sample(|| format!("{} {} {} -> {}", mode, s.name, show_v(v), show_b(&got)));
    };
    if let Some(o) = only { one(&parse_v(o), rep); return; }
    assignments(s, cfg, wild, &mut |v| one(v, rep));
}

fn bytes_mode(s: &Spec, c: &Case, cfg: &Cfg, mode: &str, only: Option<&str>, rep: &mut Report) {
    let (mut got, mut want, mut packed, mut canon, mut again, mut got2) = (vec![], vec![], vec![], vec![], vec![], vec![]);
    let mut one = |b: &[u8], rep: &mut Report| {
        if !rep.state(b) { return; }
        let m = s.unpack(b, &mut want);
        let r = op(|| (c.unpack)(b, &mut got));
        rep.trace();
        let r = match r { Ok(r) => r, Err(p) => { rep.violation(&s.name, mode, show_b(b), "no panic".into(), p); return } };
        match (&m, &r) {
            (Ok(()), Ok(())) => {
                rep.outcome(&got);
                if mode == "unpack" && got != want { rep.violation(&s.name, mode, show_b(b), show_v(&want), show_v(&got)); return }
            }
            (Err(_), Err(PackingError::InvalidValue)) => { rep.count("rejected_inputs", 1); return }
            (Err(i), x) => { rep.violation(&s.name, mode, show_b(b), format!("Err(InvalidValue) for leaf {}", s.leaves[*i].name), format!("{x:?} {}", show_v(&got))); return }
            (Ok(()), Err(e)) => { rep.violation(&s.name, mode, show_b(b), format!("Ok {}", show_v(&want)), format!("Err({e:?})")); return }
        }
        if mode == "repack" {
            match op(|| (c.pack)(&got, &mut packed)) {
                Ok(Ok(())) => (),
                x => { rep.violation(&s.name, mode, show_b(b), "pack succeeds".into(), format!("{x:?}")); return }
            }
            s.canon(b, &mut canon);
            if packed != canon { rep.violation(&s.name, mode, show_b(b), show_b(&canon), show_b(&packed)); return }
            match op(|| { (c.unpack)(&packed, &mut got2)?; (c.pack)(&got2, &mut again) }) {
                Ok(Ok(())) => (),
                x => { rep.violation(&s.name, mode, show_b(b), "second unpack/pack succeeds".into(), format!("{x:?}")); return }
            }
            if got2 != got || again != packed { rep.violation(&s.name, mode, show_b(b), show_b(&packed), format!("{} on the second trip", show_b(&again))); }
        }
        if mode == "total" {
            match op(|| (c.pack)(&got, &mut packed)) {
                Ok(Ok(())) => (),
                x => rep.violation(&s.name, mode, show_b(b), "pack of the unpacked value succeeds".into(), format!("{x:?}")),
            }
        }
        rep.sample(|| format!("{} {} {} -> {}", mode, s.name, show_b(b), show_v(&got)));
    };
    if let Some(o) = only { one(&parse_b(o), rep); return; }
    arrays(s, cfg, &mut |b| one(b, rep));
}

fn size_mode(s: &Spec, c: &Case, rep: &mut Report) {
    rep.state("size");
    rep.trace();
    let got = op(|| ((c.nbytes)(), (c.nbits)()));
    let want = (s.nbytes, s.nbits);
    rep.outcome(&format!("{got:?}"));
    if got != Ok(want) { rep.violation(&s.name, "size", "sizes".into(), format!("{want:?}"), format!("{got:?}")); }
    rep.sample(|| format!("{} {:?}", s.name, got));
}

/// C18: every slice length 0..=nbytes+extra.
fn slice_mode(s: &Spec, c: &Case, cfg: &Cfg, rep: &mut Report) {
    let n = s.nbytes;
    let so = c.slice.expect("slice operations");
    let extra = if cfg.rich { 40 } else { 12 };
    let (mut p, mut u1, mut u2) = (vec![], vec![], vec![]);
    for bg in 0..cfg.bgs {
        let v: Vec<V> = s.leaves.iter().enumerate().map(|(i, l)| background(l, i, bg)).collect();
        let arr = op(|| (c.pack)(&v, &mut p));
        if !matches!(arr, Ok(Ok(()))) { rep.violation(&s.name, "slice", show_v(&v), "pack succeeds".into(), format!("{arr:?}")); return }
        for fill in [0x00u8, 0xFF, 0x5A] {
            for len in (0..=n + extra).chain([2 * n, 2 * n + 1, 4 * n, 256, 257, n + 256, n + 65536]) {
                if n > 1500 && len < n && !sampled(len, n) { continue; }
                if !rep.state(&(bg, fill, len)) { continue; }
                let mut buf = vec![fill; len];
                let r = op(|| (so.pack)(&v, &mut buf));
                rep.trace();
                let input = format!("pack_to_slice {} into {len} bytes of 0x{fill:02x}", show_v(&v));
                if len == n {
                    if r != Ok(Ok(())) || buf != p { rep.violation(&s.name, "slice", input, show_b(&p), format!("{r:?} {}", show_b(&buf))); }
                } else {
                    let want: R<()> = Err(PackingError::BufferSizeMismatch { expected: n, actual: len });
                    if r != Ok(want) { rep.violation(&s.name, "slice", input, format!("{want:?}"), format!("{r:?}")); }
                    else if buf.iter().any(|&x| x != fill) { rep.violation(&s.name, "slice", input, "output untouched".into(), show_b(&buf)); }
                }
                // unpacking a slice of that length
                let mut src = p.clone();
                for (i, x) in src.iter_mut().enumerate() { *x ^= !s.claimed[i] & fill; }
                src.resize(len, fill);
                let input = format!("unpack_from_slice {}", show_b(&src));
                let r = op(|| (so.unpack)(&src, &mut u1));
                rep.trace();
                if len == n {
                    let a = op(|| (c.unpack)(&src, &mut u2));
                    if r != a || (matches!(r, Ok(Ok(()))) && u1 != u2) { rep.violation(&s.name, "slice", input, format!("{a:?} {}", show_v(&u2)), format!("{r:?} {}", show_v(&u1))); }
                } else {
                    let want: R<()> = Err(PackingError::BufferSizeMismatch { expected: n, actual: len });
                    if r != Ok(want) { rep.violation(&s.name, "slice", input, format!("{want:?}"), format!("{r:?}")); }
                }
                rep.outcome(&(len, n));
            }
        }
        let pv = op(|| (so.pack_vec)(&v));
        if pv != Ok(Ok(p.clone())) { rep.violation(&s.name, "slice", format!("pack_to_vec {}", show_v(&v)), show_b(&p), format!("{pv:?}")); }
        let sz = op(|| ((so.size)(None), (so.size)(Some(&v))));
        if sz != Ok((Ok(n), Ok(n))) { rep.violation(&s.name, "slice", "packed_bytes_size".into(), format!("{n}"), format!("{sz:?}")); }
        rep.sample(|| format!("slice {} n={} lengths 0..={}", s.name, n, n + extra));
    }
    // unpacking agrees with the array form on arbitrary content
    let mut buf = vec![];
    let mut all = |b: &[u8], rep: &mut Report| {
        if !rep.state(b) { return; }
        let r = op(|| (so.unpack)(b, &mut u1));
        let a = op(|| (c.unpack)(b, &mut u2));
        rep.trace();
        if r != a || (matches!(r, Ok(Ok(()))) && u1 != u2) { rep.violation(&s.name, "slice", format!("unpack_from_slice {}", show_b(b)), format!("{a:?} {}", show_v(&u2)), format!("{r:?} {}", show_v(&u1))); }
        if matches!(r, Ok(Ok(()))) && u1.iter().zip(&s.leaves).all(|(&x, l)| l.fits(x)) {
            buf.clear();
            buf.resize(n, 0xA5);
            let r = op(|| (so.pack)(&u1, &mut buf));
            let a = op(|| (c.pack)(&u1, &mut p));
            if r != a || buf != p { rep.violation(&s.name, "slice", format!("pack_to_slice {}", show_v(&u1)), format!("{a:?} {}", show_b(&p)), format!("{r:?} {}", show_b(&buf))); }
        }
    };
    if cfg.light { few_buffers(n, &mut |b| all(b, rep)) } else { buffers(n, cfg.all2, false, &mut |b| all(b, rep)) }
}

/// Entry point of a generated shard: args are `mode spec-file tier [case [input]]`.
pub fn run(cases: &[Case]) {
    init();
    let a: Vec<String> = std::env::args().collect();
    let specs = Spec::parse_all(&std::fs::read_to_string(&a[2]).unwrap());
    assert_eq!(specs.len(), cases.len(), "spec and cases out of step");
    let cfg = Cfg::tier(&a[3]);
    let mut rep = Report::default();
    for mode in a[1].split(',') {
        for (s, c) in specs.iter().zip(cases) {
            if let Some(only) = a.get(4) { if &s.name != only { continue; } }
            explore(s, c, &cfg, mode, a.get(5).map(|x| x.as_str()), &mut rep);
        }
    }
    rep.finish();
}
