// Slices, vectors, tuples and fault injection. Every type under test is a tree of parts; the model of a
// part is written here, independently of the library. args: mode tier
use mc::report::*;
use packed_struct::debug_fmt::PackedStructDisplay;
use packed_struct::prelude::*;
use packed_struct::prelude::packed_bits::*;
use packed_struct::types::bits::ByteArray;
use packed_struct::{PackedStruct, PackedStructInfo, PackedStructSlice};
use std::fmt::Debug;

type R<T> = Result<T, PackingError>;

fn kind(k: u8) -> PackingError {
    match k {
        0 => PackingError::InvalidValue,
        1 => PackingError::BitsError,
        2 => PackingError::BufferTooSmall,
        3 => PackingError::NotImplemented,
        4 => PackingError::InternalError,
        5 => PackingError::MoreThanOneDynamicType,
        6 => PackingError::BufferSizeMismatch { expected: 71, actual: 13 },
        7 => PackingError::BufferModMismatch { actual_size: 91, modulo_required: 17 },
        8 => PackingError::SliceIndexingError { slice_len: 33 },
        _ => PackingError::InstanceRequiredForSize,
    }
}
const KINDS: u8 = 10;

#[derive(Default, Clone)]
struct Plan { pos: u8, faults: Vec<u8>, leaf: usize, lens: Vec<usize>, d: usize }
impl Plan {
    fn byte(&mut self) -> u8 { self.pos = self.pos.wrapping_mul(5).wrapping_add(11); self.pos % 0xC0 }
    /// 0: no fault, k: fault of kind k - 1
    fn fault(&mut self) -> u8 { let f = self.faults.get(self.leaf).cloned().unwrap_or(0); self.leaf += 1; f }
    fn len(&mut self) -> usize { let n = self.lens.get(self.d % self.lens.len().max(1)).cloned().unwrap_or(2); self.d += 1; n }
}

/// A part of N bytes. A first byte of 0xE0 + k makes packing and unpacking fail with error k.
#[derive(Clone, PartialEq, Debug)]
struct P<const N: usize>([u8; N]);
fn faulty<T>(b: &[u8], ok: T) -> R<T> { if !b.is_empty() && b[0] >= 0xE0 { Err(kind(b[0] - 0xE0)) } else { Ok(ok) } }
impl<const N: usize> PackedStruct for P<N> {
    type ByteArray = [u8; N];
    fn pack(&self) -> R<[u8; N]> { faulty(&self.0, self.0) }
    fn unpack(s: &[u8; N]) -> R<Self> { faulty(s, P(*s)) }
}
impl<const N: usize> PackedStructInfo for P<N> { fn packed_bits() -> usize { N * 8 } }

/// A part that is only sliceable, of a size known from an instance. A first byte of 0xD0 + k makes
/// asking an instance for its size fail with error k.
#[derive(Clone, PartialEq, Debug)]
struct D(Vec<u8>);
impl PackedStructSlice for D {
    fn pack_to_slice(&self, out: &mut [u8]) -> R<()> {
        if out.len() != self.0.len() { return Err(PackingError::BufferSizeMismatch { expected: self.0.len(), actual: out.len() }) }
        faulty(&self.0, ())?;
        out.copy_from_slice(&self.0);
        Ok(())
    }
    fn unpack_from_slice(s: &[u8]) -> R<Self> { faulty(s, D(s.to_vec())) }
    fn packed_bytes_size(o: Option<&Self>) -> R<usize> {
        match o { None => Err(PackingError::InstanceRequiredForSize), Some(d) => if !d.0.is_empty() && (0xD0..0xE0).contains(&d.0[0]) { Err(kind(d.0[0] - 0xD0)) } else { Ok(d.0.len()) } }
    }
}
/// A part whose size is never known: asking for it fails with error K.
#[derive(Clone, PartialEq, Debug)]
struct Bad<const K: u8>;
impl<const K: u8> PackedStructSlice for Bad<K> {
    fn pack_to_slice(&self, _: &mut [u8]) -> R<()> { Err(kind(K)) }
    fn unpack_from_slice(_: &[u8]) -> R<Self> { Err(kind(K)) }
    fn packed_bytes_size(_: Option<&Self>) -> R<usize> { Err(kind(K)) }
}
/// A statically sized slice part with a size of its own (not through PackedStruct).
#[derive(Clone, PartialEq, Debug)]
struct Fix([u8; 2]);
impl PackedStructSlice for Fix {
    fn pack_to_slice(&self, out: &mut [u8]) -> R<()> {
        if out.len() != 2 { return Err(PackingError::BufferSizeMismatch { expected: 2, actual: out.len() }) }
        faulty(&self.0, ())?;
        out.copy_from_slice(&self.0);
        Ok(())
    }
    fn unpack_from_slice(s: &[u8]) -> R<Self> {
        if s.len() != 2 { return Err(PackingError::BufferSizeMismatch { expected: 2, actual: s.len() }) }
        faulty(s, Fix([s[0], s[1]]))
    }
    fn packed_bytes_size(_: Option<&Self>) -> R<usize> { Ok(2) }
}

/// What the harness knows about a part.
trait Tp: Sized + PartialEq + Debug + PackedStructSlice {
    fn make(p: &mut Plan) -> Self;
    fn size_none() -> R<usize>;
    fn size_some(&self) -> R<usize>;
    fn m_pack(&self) -> R<Vec<u8>>;
    fn raw(&self) -> Vec<u8>;
    fn m_unpack(s: &[u8]) -> R<Self>;
    fn leaves(_lens: &[usize]) -> usize { 0 }
}
fn exact<T>(s: &[u8], n: usize, f: impl FnOnce() -> R<T>) -> R<T> {
    if s.len() != n { Err(PackingError::BufferSizeMismatch { expected: n, actual: s.len() }) } else { f() }
}
macro_rules! fixed { ($t:ty, $n:expr, $p:ident => $make:expr, $x:ident => $bytes:expr, $s:ident => $un:expr) => {
    impl Tp for $t {
        fn make($p: &mut Plan) -> Self { $make }
        fn size_none() -> R<usize> { Ok($n) }
        fn size_some(&self) -> R<usize> { Ok($n) }
        fn m_pack(&self) -> R<Vec<u8>> { Ok(self.raw()) }
        fn raw(&self) -> Vec<u8> { let $x = self; $bytes }
        fn m_unpack($s: &[u8]) -> R<Self> { exact($s, $n, || $un) }
    }
} }
fixed!(u8, 1, p => p.byte(), x => vec![*x], s => Ok(s[0]));
fixed!(i8, 1, p => p.byte() as i8, x => vec![*x as u8], s => Ok(s[0] as i8));
fixed!(bool, 1, p => p.byte() & 1 == 1, x => vec![*x as u8], s => match s[0] { 0 => Ok(false), 1 => Ok(true), _ => Err(PackingError::InvalidValue) });
fixed!((), 0, _p => (), _x => vec![], _s => Ok(()));
impl<const N: usize> Tp for [u8; N] {
    fn make(p: &mut Plan) -> Self { std::array::from_fn(|_| p.byte()) }
    fn size_none() -> R<usize> { Ok(N) }
    fn size_some(&self) -> R<usize> { Ok(N) }
    fn m_pack(&self) -> R<Vec<u8>> { Ok(self.to_vec()) }
    fn raw(&self) -> Vec<u8> { self.to_vec() }
    fn m_unpack(s: &[u8]) -> R<Self> { exact(s, N, || Ok(s.try_into().unwrap())) }
}
fn coded<const N: usize>(p: &mut Plan) -> [u8; N] {
    let f = p.fault();
    let mut a: [u8; N] = std::array::from_fn(|_| p.byte());
    if f > 0 && f <= KINDS { a[0] = 0xE0 + (f - 1) }
    a
}
impl<const N: usize> Tp for P<N> {
    fn make(p: &mut Plan) -> Self { P(coded(p)) }
    fn size_none() -> R<usize> { Ok(N) }
    fn size_some(&self) -> R<usize> { Ok(N) }
    fn m_pack(&self) -> R<Vec<u8>> { faulty(&self.0, self.raw()) }
    fn raw(&self) -> Vec<u8> { self.0.to_vec() }
    fn m_unpack(s: &[u8]) -> R<Self> { exact(s, N, || faulty(s, P(s.try_into().unwrap()))) }
    fn leaves(_: &[usize]) -> usize { 1 }
}
impl Tp for Fix {
    fn make(p: &mut Plan) -> Self { Fix(coded(p)) }
    fn size_none() -> R<usize> { Ok(2) }
    fn size_some(&self) -> R<usize> { Ok(2) }
    fn m_pack(&self) -> R<Vec<u8>> { faulty(&self.0, self.raw()) }
    fn raw(&self) -> Vec<u8> { self.0.to_vec() }
    fn m_unpack(s: &[u8]) -> R<Self> { exact(s, 2, || faulty(s, Fix(s.try_into().unwrap()))) }
    fn leaves(_: &[usize]) -> usize { 1 }
}
impl Tp for D {
    fn make(p: &mut Plan) -> Self {
        let n = p.len();
        let f = p.fault();
        let mut v: Vec<u8> = (0..n).map(|_| p.byte()).collect();
        if f > 0 && n > 0 { v[0] = if f > 100 { 0xD0 + (f - 101) } else { 0xE0 + (f - 1) } }
        D(v)
    }
    fn size_none() -> R<usize> { Err(PackingError::InstanceRequiredForSize) }
    fn size_some(&self) -> R<usize> { if !self.0.is_empty() && (0xD0..0xE0).contains(&self.0[0]) { Err(kind(self.0[0] - 0xD0)) } else { Ok(self.0.len()) } }
    fn m_pack(&self) -> R<Vec<u8>> { faulty(&self.0, self.raw()) }
    fn raw(&self) -> Vec<u8> { self.0.clone() }
    fn m_unpack(s: &[u8]) -> R<Self> { faulty(s, D(s.to_vec())) }
    fn leaves(_: &[usize]) -> usize { 1 }
}
impl<const K: u8> Tp for Bad<K> {
    fn make(_: &mut Plan) -> Self { Bad }
    fn size_none() -> R<usize> { Err(kind(K)) }
    fn size_some(&self) -> R<usize> { Err(kind(K)) }
    fn m_pack(&self) -> R<Vec<u8>> { Err(kind(K)) }
    fn raw(&self) -> Vec<u8> { vec![] }
    fn m_unpack(_: &[u8]) -> R<Self> { Err(kind(K)) }
}
impl<T: Tp> Tp for Vec<T> {
    fn make(p: &mut Plan) -> Self { let n = p.len(); (0..n).map(|_| T::make(p)).collect() }
    fn size_none() -> R<usize> { Err(PackingError::InstanceRequiredForSize) }
    fn size_some(&self) -> R<usize> { Ok(self.len() * T::size_none()?) }
    fn m_pack(&self) -> R<Vec<u8>> {
        self.size_some()?;
        let mut o = vec![];
        for x in self { o.extend(x.m_pack()?) }
        Ok(o)
    }
    fn raw(&self) -> Vec<u8> { self.iter().flat_map(|x| x.raw()).collect() }
    fn m_unpack(s: &[u8]) -> R<Self> {
        let n = T::size_none()?;
        if s.is_empty() { return Ok(vec![]) }
        if s.len() % n != 0 { return Err(PackingError::BufferModMismatch { actual_size: s.len(), modulo_required: n }) }
        s.chunks(n).map(T::m_unpack).collect()
    }
    fn leaves(lens: &[usize]) -> usize { T::leaves(lens) * lens.iter().max().cloned().unwrap_or(2) }
}
macro_rules! tuple_tp { ($($n:ident $i:tt),*) => {
    impl<$($n: Tp),*> Tp for ($($n,)*) {
        fn make(p: &mut Plan) -> Self { ($($n::make(p),)*) }
        fn size_none() -> R<usize> { let mut t = 0; $( t += $n::size_none()?; )* Ok(t) }
        fn size_some(&self) -> R<usize> { let mut t = 0; $( t += self.$i.size_some()?; )* Ok(t) }
        fn m_pack(&self) -> R<Vec<u8>> { self.size_some()?; let mut o = vec![]; $( o.extend(self.$i.m_pack()?); )* Ok(o) }
        fn raw(&self) -> Vec<u8> { let mut o = vec![]; $( o.extend(self.$i.raw()); )* o }
        fn m_unpack(s: &[u8]) -> R<Self> {
            let mut st = 0;
            let mut dy = 0;
            $( match $n::size_none() { Ok(n) => st += n, Err(PackingError::InstanceRequiredForSize) => dy += 1, Err(e) => return Err(e) } )*
            if dy > 1 { return Err(PackingError::MoreThanOneDynamicType) }
            if (dy == 0 && s.len() != st) || s.len() < st { return Err(PackingError::BufferSizeMismatch { expected: st, actual: s.len() }) }
            let rest = s.len() - st;
            let mut at = 0;
            Ok(($( { let n = $n::size_none().unwrap_or(rest); at += n; $n::m_unpack(&s[at - n..at])? }, )*))
        }
        fn leaves(lens: &[usize]) -> usize { 0 $( + $n::leaves(lens) )* }
    }
} }
tuple_tp!(A 0);
tuple_tp!(A 0, B 1);
tuple_tp!(A 0, B 1, C 2);
tuple_tp!(A 0, B 1, C 2, E 3);
tuple_tp!(A 0, B 1, C 2, E 3, F 4);
tuple_tp!(A 0, B 1, C 2, E 3, F 4, G 5);
tuple_tp!(A 0, B 1, C 2, E 3, F 4, G 5, H 6);
tuple_tp!(A 0, B 1, C 2, E 3, F 4, G 5, H 6, I 7);
tuple_tp!(A 0, B 1, C 2, E 3, F 4, G 5, H 6, I 7, J 8);
tuple_tp!(A 0, B 1, C 2, E 3, F 4, G 5, H 6, I 7, J 8, K 9);

// ------------------------------------------------------------------ derived structures made of parts
// arrays of parts as fields: the model of [T; K]
impl<T: Tp + PackedStruct, const K: usize> Tp for Wrap<T, K> where T: Clone {
    fn make(p: &mut Plan) -> Self { Wrap(std::array::from_fn(|_| T::make(p))) }
    fn size_none() -> R<usize> { Ok(K * T::size_none()?) }
    fn size_some(&self) -> R<usize> { Self::size_none() }
    fn m_pack(&self) -> R<Vec<u8>> { let mut o = vec![]; for x in &self.0 { o.extend(x.m_pack()?) } Ok(o) }
    fn raw(&self) -> Vec<u8> { self.0.iter().flat_map(|x| x.raw()).collect() }
    fn m_unpack(s: &[u8]) -> R<Self> { let n = T::size_none()?; let v: R<Vec<T>> = s.chunks(n).map(T::m_unpack).collect(); Ok(Wrap(v?.try_into().ok().unwrap())) }
    fn leaves(lens: &[usize]) -> usize { K * T::leaves(lens) }
}
#[derive(Clone, PartialEq, Debug)]
struct Wrap<T, const K: usize>([T; K]);
impl<T, const K: usize> PackedStructSlice for Wrap<T, K> {
    fn pack_to_slice(&self, _: &mut [u8]) -> R<()> { unreachable!() }
    fn unpack_from_slice(_: &[u8]) -> R<Self> { unreachable!() }
    fn packed_bytes_size(_: Option<&Self>) -> R<usize> { unreachable!() }
}
macro_rules! derived { ($t:ident, $n:expr; $($(#[$at:meta])* $f:ident : $ft:tt as $mt:ty, $x:ident => $to:expr, $y:ident => $from:expr);*) => {
    #[derive(PackedStruct, Clone, PartialEq, Debug)]
    #[packed_struct(bit_numbering = "msb0")]
    struct $t { $( $(#[$at])* $f: $ft ),* }
    impl Tp for $t {
        fn make(p: &mut Plan) -> Self { $t { $($f: { let $y = <$mt>::make(p); $from }),* } }
        fn size_none() -> R<usize> { Ok($n) }
        fn size_some(&self) -> R<usize> { Ok($n) }
        fn m_pack(&self) -> R<Vec<u8>> { let mut o = vec![]; $( { let $x = self.$f.clone(); let m: $mt = $to; o.extend(m.m_pack()?); } )* Ok(o) }
        fn raw(&self) -> Vec<u8> { let mut o = vec![]; $( { let $x = self.$f.clone(); let m: $mt = $to; o.extend(m.raw()); } )* o }
        fn m_unpack(s: &[u8]) -> R<Self> { exact(s, $n, || { let mut at = 0; Ok($t { $( $f: { let n = <$mt>::size_none()?; at += n; let $y = <$mt>::m_unpack(&s[at - n..at])?; $from } ),* }) }) }
        fn leaves(lens: &[usize]) -> usize { 0 $( + <$mt>::leaves(lens) )* }
    }
} }
// (the derive takes no const generic arguments in a field's type)
type P1 = P<1>;
type P2 = P<2>;
type P3 = P<3>;
type P4 = P<4>;
derived!(S1, 5; #[packed_field(bits = "0:15")] a: P2 as P2, x => x, y => y; #[packed_field(bits = "16:39")] b: [P1; 3] as Wrap<P1, 3>, x => Wrap(x), y => y.0);
derived!(S2, 7; #[packed_field(bits = "0:7")] f: bool as bool, x => x, y => y; #[packed_field(bits = "8:23")] p: P2 as P2, x => x, y => y;
    #[packed_field(bits = "24:31")] g: bool as bool, x => x, y => y; #[packed_field(bits = "32:55")] q: P3 as P3, x => x, y => y);
derived!(S3, 12; #[packed_field(bits = "0:39")] s: S1 as S1, x => x, y => y; #[packed_field(bits = "40:47")] p: P1 as P1, x => x, y => y;
    #[packed_field(bits = "48:95")] v: [P2; 3] as Wrap<P2, 3>, x => Wrap(x), y => y.0);
derived!(S4, 26; #[packed_field(bits = "0:79")] a: [S1; 2] as Wrap<S1, 2>, x => Wrap(x), y => y.0; #[packed_field(bits = "80:175")] b: S3 as S3, x => x, y => y;
    #[packed_field(bits = "176:207")] c: P4 as P4, x => x, y => y);
derived!(S5, 1; #[packed_field(bits = "0:7")] a: P1 as P1, x => x, y => y);

/// the same parts at unaligned positions: only outcomes and round trips are compared
macro_rules! crooked { ($t:ident, $twin:ident, $map:expr; $($(#[$at:meta])* $f:ident : $ft:tt),*) => {
    #[derive(PackedStruct, Clone, PartialEq, Debug)]
    #[packed_struct(bit_numbering = "msb0")]
    struct $t { $( $(#[$at])* $f: $ft ),* }
    impl Crooked for $t { type Twin = $twin; const MAP: &'static [(usize, usize)] = &$map; fn from_twin(t: $twin) -> Self { $t { $( $f: t.$f ),* } } }
} }
trait Crooked { type Twin: Tp; fn from_twin(t: Self::Twin) -> Self; const MAP: &'static [(usize, usize)]; }
crooked!(U1, S1, [(3, 16), (21, 24)]; #[packed_field(bits = "3:18")] a: P2, #[packed_field(bits = "21:44")] b: [P1; 3]);
crooked!(U2, S2, [(0, 1), (1, 16), (17, 3), (20, 24)]; #[packed_field(bits = "0")] f: bool, #[packed_field(bits = "1:16")] p: P2, #[packed_field(bits = "17:19")] g: bool, #[packed_field(bits = "20:43")] q: P3);
crooked!(U3, S3, [(5, 40), (45, 8), (53, 48)]; #[packed_field(bits = "5:44")] s: S1, #[packed_field(bits = "45:52")] p: P1, #[packed_field(element_size_bits = "16")] v: [P2; 3]);
crooked!(U4, S4, [(1, 80), (83, 96), (180, 32)]; #[packed_field(bits = "1:80")] a: [S1; 2], #[packed_field(bits = "83:178")] b: S3, #[packed_field(bits = "180:211")] c: P4);

// ------------------------------------------------------------------ exploration
fn same<T: PartialEq + Debug>(rep: &mut Report, case: &str, mode: &str, input: impl FnOnce() -> String, want: &R<T>, got: &Result<R<T>, String>) -> bool {
    rep.trace();
    let ok = matches!(got, Ok(g) if g == want);
    if !ok { rep.violation(case, mode, input(), format!("{want:?}"), format!("{got:?}")); }
    ok
}

/// packing into and unpacking from buffers of every length around the right one
fn lengths<T: Tp>(name: &str, mode: &str, lensets: &[Vec<usize>], rep: &mut Report) {
    rep.begin_case(name);
    let r = op(|| T::packed_bytes_size(None));
    if rep.state("size") { same(rep, name, mode, || "packed_bytes_size(None)".into(), &T::size_none(), &r); }
    for lens in lensets {
        for pos in [0u8, 77, 190] {
            let v = T::make(&mut Plan { pos, lens: lens.clone(), ..Default::default() });
            if !rep.state(&(lens, pos)) { continue; }
            let want = v.m_pack();
            let size = v.size_some();
            same(rep, name, mode, || format!("packed_bytes_size(Some({v:?}))"), &size, &op(|| T::packed_bytes_size(Some(&v))));
            same(rep, name, mode, || format!("pack_to_vec {v:?}"), &want, &op(|| v.pack_to_vec()));
            let n = match &want { Ok(b) => b.len(), Err(_) => continue };
            rep.outcome(&format!("{want:?}"));
            let raw = v.raw();
            let around: Vec<usize> = if n <= 90 { (0..=n + 9).collect() } else { (0..9).chain(n - 9..=n + 9).chain([n / 2, n - 64, n % 256, n - n % 256, n.saturating_sub(256), n + 64]).collect() };
            for len in around.into_iter().chain([2 * n, 2 * n + 1, n + 256, n + 65536]) { for fill in [0u8, 0xFF, 0x5A] {
                if !rep.state(&(lens, pos, len, fill)) { continue; }
                let mut buf = vec![fill; len];
                let r = op(|| v.pack_to_slice(&mut buf));
                let m: R<()> = if len == n { Ok(()) } else { Err(PackingError::BufferSizeMismatch { expected: n, actual: len }) };
                if same(rep, name, mode, || format!("pack_to_slice {v:?} into {len} bytes"), &m, &r) {
                    let ok = if len == n { Ok(&buf) == want.as_ref() } else { buf.iter().all(|&b| b == fill) };
                    if !ok { rep.violation(name, mode, format!("pack_to_slice {v:?} into {len} bytes of {fill}"), if len == n { format!("{want:?}") } else { "output untouched".into() }, format!("{buf:?}")); }
                }
                // unpacking that many bytes
                let mut src: Vec<u8> = raw.iter().cloned().cycle().take(if raw.is_empty() { 0 } else { len }).collect();
                src.resize(len, fill % 0xC0);
                let before = src.clone();
                same(rep, name, mode, || format!("unpack_from_slice {before:?}"), &T::m_unpack(&src), &op(|| T::unpack_from_slice(&src)));
                // the same byte all over
                src.fill(fill % 0xC0);
                same(rep, name, mode, || format!("unpack_from_slice {len} bytes of {}", fill % 0xC0), &T::m_unpack(&src), &op(|| T::unpack_from_slice(&src)));
            } }
            rep.sample(|| format!("{name} {v:?} -> {want:?}"));
        }
    }
}

/// every fault of every part, and every pair of faults
fn faults<T: Tp + Clone>(name: &str, size_faults: bool, rep: &mut Report) {
    rep.begin_case(name);
    for lens in [vec![1], vec![2], vec![3, 1]] {
        let n = T::leaves(&lens).min(14);
        let mut plans: Vec<Vec<u8>> = vec![vec![]];
        for i in 0..n { for k in 1..=KINDS { let mut p = vec![0; n]; p[i] = k; plans.push(p); } }
        for i in 0..n { for j in i + 1..n { for (a, b) in [(1, 2), (7, 8), (5, 9), (10, 1), (8, 7), (6, 3)] { let mut p = vec![0; n]; p[i] = a; p[j] = b; plans.push(p); } } }
        if n <= 6 { for m in 0..1u32 << n { plans.push((0..n).map(|i| if m >> i & 1 == 1 { i as u8 % 9 + 1 } else { 0 }).collect()); } }
        if size_faults { for i in 0..n { for k in 1..KINDS { let mut p = vec![0; n]; p[i] = 100 + k; plans.push(p.clone()); if i + 1 < n { p[i + 1] = 100 + k % 9 + 1; plans.push(p); } } } }
        for faults in plans {
            if !rep.state(&(&lens, &faults)) { continue; }
            let v = T::make(&mut Plan { faults: faults.clone(), lens: lens.clone(), ..Default::default() });
            let want = v.m_pack();
            rep.outcome(&format!("{:?}", want.as_ref().map(|_| ())));
            let inp = |o: &str| format!("{o} {v:?}");
            same(rep, name, "c21", || inp("packed_bytes_size"), &v.size_some(), &op(|| T::packed_bytes_size(Some(&v))));
            same(rep, name, "c21", || inp("pack_to_vec"), &want, &op(|| v.pack_to_vec()));
            let raw = v.raw();
            let mut buf = vec![0x77; raw.len()];
            let w2: R<()> = want.as_ref().map(|_| ()).map_err(|e| *e);
            same(rep, name, "c21", || inp("pack_to_slice"), &w2, &op(|| v.pack_to_slice(&mut buf)));
            if want.is_ok() && buf != raw { rep.violation(name, "c21", inp("pack_to_slice"), format!("{raw:?}"), format!("{buf:?}")); }
            same(rep, name, "c21", || format!("unpack_from_slice {raw:?}"), &T::m_unpack(&raw), &op(|| T::unpack_from_slice(&raw)));
            rep.sample(|| format!("{name} faults {faults:?}: {:?}", want.as_ref().map(|b| b.len())));
        }
    }
}

/// the same for the array forms of derived structures, and for their display
fn derived_faults<T: Tp + Clone + PackedStruct>(name: &str, rep: &mut Report, show: fn(&T) -> String) {
    rep.begin_case(name);
    let n = T::leaves(&[]);
    let mut plans: Vec<Vec<u8>> = vec![vec![]];
    for i in 0..n { for k in 1..=KINDS { let mut p = vec![0; n]; p[i] = k; plans.push(p); } }
    for i in 0..n { for j in i + 1..n { for a in 1..=KINDS { let mut p = vec![0; n]; p[i] = a; p[j] = a % KINDS + 1; plans.push(p); } } }
    for faults in plans {
        if !rep.state(&faults) { continue; }
        let v = T::make(&mut Plan { faults: faults.clone(), ..Default::default() });
        let want = v.m_pack();
        rep.outcome(&format!("{:?}", want.as_ref().map(|_| ())));
        same(rep, name, "c21", || format!("pack {v:?}"), &want, &op(|| v.pack().map(|b| b.as_bytes_slice().to_vec())));
        let raw = v.raw();
        let mut arr = <T::ByteArray as ByteArray>::new(0);
        arr.as_mut_bytes_slice().copy_from_slice(&raw);
        same(rep, name, "c21", || format!("unpack {raw:?}"), &T::m_unpack(&raw), &op(|| T::unpack(&arr)));
        let text = op(|| show(&v));
        rep.trace();
        let ok = match (&want, &text) {
            (Err(e), Ok(t)) => t.contains(&format!("{e:?}")) && !t.contains(&format!("{name} (")),
            (Ok(_), Ok(t)) => t.contains(&format!("{name} (")),
            _ => false,
        };
        if !ok { rep.violation(name, "c21", format!("display {v:?}"), format!("{:?}", want.map(|_| "the structure")), format!("{text:?}")); }
        rep.sample(|| format!("{name} faults {faults:?}"));
    }
    // bytes with values that bool parts reject
    let v = T::make(&mut Plan::default());
    let base = v.raw();
    for i in 0..base.len() { for x in 0..=255u8 {
        let mut raw = base.clone();
        raw[i] = x;
        if (0xE0 + KINDS..).contains(&x) || !rep.state(&raw) { continue; }
        let mut arr = <T::ByteArray as ByteArray>::new(0);
        arr.as_mut_bytes_slice().copy_from_slice(&raw);
        same(rep, name, "c21", || format!("unpack {raw:?}"), &T::m_unpack(&raw), &op(|| T::unpack(&arr)));
        if let Some(j) = (i + 1..base.len()).next() {
            let mut raw = raw.clone();
            raw[j] = 0xE0 + (x % KINDS);
            arr.as_mut_bytes_slice().copy_from_slice(&raw);
            same(rep, name, "c21", || format!("unpack {raw:?}"), &T::m_unpack(&raw), &op(|| T::unpack(&arr)));
        }
    } }
}
fn crooked_faults<U: Crooked + PackedStruct + Clone + PartialEq + Debug>(name: &str, rep: &mut Report, show: fn(&U) -> String) where U::Twin: Clone {
    rep.begin_case(name);
    let n = U::Twin::leaves(&[]);
    let mut plans: Vec<Vec<u8>> = vec![vec![]];
    for i in 0..n { for k in 1..=KINDS { let mut p = vec![0; n]; p[i] = k; plans.push(p); } }
    for i in 0..n { for j in i + 1..n { for a in 1..=KINDS { let mut p = vec![0; n]; p[i] = a; p[j] = a % KINDS + 1; plans.push(p); } } }
    for faults in plans {
        if !rep.state(&faults) { continue; }
        let tw = U::Twin::make(&mut Plan { faults: faults.clone(), ..Default::default() });
        let v = U::from_twin(tw.clone());
        let want: R<()> = tw.m_pack().map(|_| ());
        rep.outcome(&format!("{want:?}"));
        same(rep, name, "c21", || format!("pack {v:?}"), &want, &op(|| v.pack().map(|_| ())));
        let text = op(|| show(&v));
        let ok = match (&want, &text) { (Err(e), Ok(t)) => t.contains(&format!("{e:?}")) && !t.contains(&format!("{name} (")), (Ok(_), Ok(t)) => t.contains(&format!("{name} (")), _ => false };
        if !ok { rep.violation(name, "c21", format!("display {v:?}"), format!("{want:?}"), format!("{text:?}")); }
        if want.is_ok() {
            let r = op(|| U::unpack(&v.pack()?));
            same(rep, name, "c21", || format!("unpack(pack {v:?})"), &Ok(v.clone()), &r);
        }
        rep.sample(|| format!("{name} faults {faults:?}"));
    }
    // unpacking the bytes of faulty values: every byte of every part in turn set to a faulty code, and pairs
    let base = U::Twin::make(&mut Plan::default()).raw();
    let mut raws = vec![base.clone()];
    for i in 0..base.len() { for k in 0..KINDS { let mut r = base.clone(); r[i] = 0xE0 + k; raws.push(r.clone()); for j in i + 1..base.len() { let mut r = r.clone(); r[j] = 0xE0 + (k + 1) % KINDS; raws.push(r); } } }
    for x in 0..8 { for k in 0..=KINDS { let mut r = base.clone(); r[0] = x & 1; if base.len() == 7 { r[3] = x; if k > 0 { r[4] = 0xDF + k; } } raws.push(r); } }
    for raw in raws {
        let mut at = 0;
        let mut fits = true;
        let mut arr = <U::ByteArray as ByteArray>::new(0);
        let out = arr.as_mut_bytes_slice();
        for &(start, width) in U::MAP {
            let n = (width + 7) / 8;
            let part = &raw[at..at + n];
            at += n;
            for b in 0..n * 8 {
                let bit = part[b / 8] >> (7 - b % 8) & 1;
                if b < n * 8 - width { fits &= bit == 0; continue; }
                let pos = start + b - (n * 8 - width);
                out[pos / 8] |= bit << (7 - pos % 8);
            }
        }
        if !fits || !rep.state(&("raw", &raw)) { continue; }
        let want = U::Twin::m_unpack(&raw).map(U::from_twin);
        rep.outcome(&format!("{want:?}"));
        same(rep, name, "c21", || format!("unpack {:?}", arr.as_bytes_slice()), &want, &op(|| U::unpack(&arr)));
        same(rep, name, "c21", || format!("unpack_from_slice {:?}", arr.as_bytes_slice()), &want, &op(|| U::unpack_from_slice(arr.as_bytes_slice())));
    }
}

/// a fault at every element of a long vector, alone and with another one after it
fn long_faults(rep: &mut Report) {
    rep.begin_case("long vectors with faults");
    for n in [17usize, 64, 65, 128, 255, 256, 257, 300, 600] {
        let good: Vec<P<2>> = (0..n).map(|i| P([(i % 200) as u8, (i >> 8) as u8])).collect();
        for i in 0..n { for second in [None, Some(i + 1), Some(n - 1)] {
            let k = (i % KINDS as usize) as u8;
            let mut v = good.clone();
            if let Some(j) = second { if j <= i || j >= n { continue } v[j].0[0] = 0xE0 + (k + 1) % KINDS; }
            v[i].0[0] = 0xE0 + k;
            if !rep.state(&(n, i, second)) { continue }
            let raw: Vec<u8> = v.iter().flat_map(|p| p.0).collect();
            let name = "Vec<P<2>>";
            let inp = |o: &str| format!("{o} of {n} elements with faults at {i} and {second:?}");
            let mut buf = vec![0; 2 * n];
            same(rep, name, "faults", || inp("pack_to_vec"), &Err(kind(k)), &op(|| v.pack_to_vec().map(|_| ())));
            same(rep, name, "faults", || inp("pack_to_slice"), &Err(kind(k)), &op(|| v.pack_to_slice(&mut buf)));
            same(rep, name, "faults", || inp("unpack_from_slice"), &Err(kind(k)), &op(|| Vec::<P<2>>::unpack_from_slice(&raw).map(|_| ())));
            let t = (7u8, v.clone(), 9u8);
            same(rep, name, "faults", || inp("pack_to_vec in a tuple"), &Err(kind(k)), &op(|| t.pack_to_vec().map(|_| ())));
        } }
    }
}

fn big_vectors(rep: &mut Report) {
    rep.begin_case("large vectors");
    for n in [255usize, 256, 257, 1000, 65535, 65536, 65537, 70001] {
        rep.state(&n);
        let v: Vec<u8> = (0..n).map(|i| (i * 7 + i / 251) as u8).collect();
        same(rep, "Vec<u8>", "c19", || format!("pack {n} elements"), &Ok(v.clone()), &op(|| v.pack_to_vec()));
        same(rep, "Vec<u8>", "c19", || format!("unpack {n} elements"), &Ok(v.clone()), &op(|| Vec::<u8>::unpack_from_slice(&v)));
        let v: Vec<P<3>> = (0..n).map(|i| P([(i % 200) as u8, (i >> 8) as u8, (i * 3) as u8])).collect();
        let raw: Vec<u8> = v.iter().flat_map(|p| p.0).collect();
        same(rep, "Vec<P<3>>", "c19", || format!("pack {n} elements"), &Ok(raw.clone()), &op(|| v.pack_to_vec()));
        same(rep, "Vec<P<3>>", "c19", || format!("unpack {n} elements"), &Ok(v.clone()), &op(|| Vec::<P<3>>::unpack_from_slice(&raw)));
        same(rep, "Vec<P<3>>", "c19", || format!("unpack {n} elements and a byte"), &Err(PackingError::BufferModMismatch { actual_size: raw.len() + 1, modulo_required: 3 }), &op(|| { let mut x = raw.clone(); x.push(0); Vec::<P<3>>::unpack_from_slice(&x) }));
    }
}

/// parts and dynamic parts longer than any 8 or 16 bit count of bytes
fn big_tuples(rep: &mut Report) {
    rep.begin_case("large tuples");
    for n in [255usize, 256, 257, 4095, 4096, 4097, 65534, 65535, 65536, 65537, 70001, 131072] {
        rep.state(&n);
        let v: Vec<u8> = (0..n).map(|i| (i * 7 + i / 251 + 3) as u8).collect();
        let (a, b) = (P([1u8, 2, 3]), P([99u8]));
        let t = (v.clone(), a, b);
        let raw: Vec<u8> = v.iter().copied().chain([1, 2, 3, 99]).collect();
        same(rep, "(Vec<u8>, P<3>, P<1>)", "c20", || format!("pack with {n} elements"), &Ok(raw.clone()), &op(|| t.pack_to_vec()));
        same(rep, "(Vec<u8>, P<3>, P<1>)", "c20", || format!("unpack with {n} elements"), &Ok(t.clone()), &op(|| <(Vec<u8>, P<3>, P<1>)>::unpack_from_slice(&raw)));
        let t = (P([9u8]), (v.clone(), 77u8), P([4u8, 5]));
        let raw: Vec<u8> = [9u8].into_iter().chain(v.iter().copied()).chain([77, 4, 5]).collect();
        same(rep, "(P<1>, (Vec<u8>, u8), P<2>)", "c20", || format!("pack with {n} elements"), &Ok(raw.clone()), &op(|| t.pack_to_vec()));
        same(rep, "(P<1>, (Vec<u8>, u8), P<2>)", "c20", || format!("unpack with {n} elements"), &<(P<1>, (Vec<u8>, u8), P<2>)>::m_unpack(&raw), &op(|| <(P<1>, (Vec<u8>, u8), P<2>)>::unpack_from_slice(&raw)));
        let w: Vec<P<2>> = (0..n).map(|i| P([(i % 200) as u8, (i >> 8) as u8])).collect();
        let big = [0x5Au8; 66000];
        let t = (big, w.clone(), 8u8);
        let raw: Vec<u8> = big.iter().copied().chain(w.iter().flat_map(|p| p.0)).chain([8]).collect();
        same(rep, "([u8; 66000], Vec<P<2>>, u8)", "c20", || format!("pack with {n} elements"), &Ok(raw.clone()), &op(|| t.pack_to_vec()));
        same(rep, "([u8; 66000], Vec<P<2>>, u8)", "c20", || format!("unpack with {n} elements"), &Ok(t.clone()), &op(|| <([u8; 66000], Vec<P<2>>, u8)>::unpack_from_slice(&raw)));
        let mut more = raw.clone();
        more.push(0);
        same(rep, "([u8; 66000], Vec<P<2>>, u8)", "c20", || format!("unpack with {n} elements and a byte"), &Err(PackingError::BufferModMismatch { actual_size: n * 2 + 1, modulo_required: 2 }), &op(|| <([u8; 66000], Vec<P<2>>, u8)>::unpack_from_slice(&more)));
        same(rep, "([u8; 66000], Vec<P<2>>, u8)", "c20", || format!("size with {n} elements"), &Ok(raw.len()), &op(|| <([u8; 66000], Vec<P<2>>, u8)>::packed_bytes_size(Some(&t))));
    }
}

fn main() {
    init();
    let a: Vec<String> = std::env::args().collect();
    let thorough = a[2] == "thorough";
    let mode = a[1].as_str();
    let mut rep = Report::default();
    let rep = &mut rep;
    let all: Vec<Vec<usize>> = if thorough { (0..=12).map(|n| vec![n]).chain((0..6).flat_map(|a| (0..6).map(move |b| vec![a, b]))).collect() } else { (0..=5).map(|n| vec![n]).chain([vec![2, 0], vec![1, 3], vec![0, 2], vec![4, 1]]).collect() };
    let _ = &all;
    /*BODY*/
    std::mem::take(rep).finish();
}
