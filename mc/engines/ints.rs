// Integers, byte conversions, elementary types, byte array helpers. args: mode tier
use mc::report::*;
use mc::domain::{light_patterns, patterns};
use mc::model::{get_bit, sext, Kind, L, Spec};
use mc::{Prim, V};
use packed_struct::prelude::*;
use packed_struct::prelude::packed_bits::*;
use packed_struct::types::bits::ByteArray;
use packed_struct::{PackedStruct, PackedStructInfo, PackedStructSlice};
use std::collections::hash_map::DefaultHasher;
use std::fmt::{Debug, Display};
use std::hash::{Hash, Hasher};
use std::ops::Deref;

type Arr<B> = <<B as NumberOfBits>::Bytes as NumberOfBytes>::AsBytes;

fn wrap(v: V, n: usize, signed: bool) -> V {
    let raw = (v as u128) & ((1u128 << n) - 1);
    if signed { sext(raw, n) } else { raw as V }
}
fn natives(width: usize, signed: bool, rich: bool) -> Vec<V> {
    patterns(width, 16, rich).into_iter().map(|p| if signed { sext(p as u128, width) } else { p as V }).collect()
}
fn h<T: Hash>(t: &T) -> u64 { let mut s = DefaultHasher::new(); t.hash(&mut s); s.finish() }

fn wrapping<T, const N: usize>(name: &str, signed: bool, rich: bool, rep: &mut Report)
where Bits<N>: NumberOfBits, T: Prim + Display + Debug + PartialEq + Into<Integer<T, Bits<N>>> + From<Integer<T, Bits<N>>>,
      Integer<T, Bits<N>>: SizedInteger<T, Bits<N>> + Deref<Target = T> + From<T> + Hash + Eq + Copy + Debug + Display + Default
{
    let case = format!("Integer<{name}, Bits<{N}>>");
    rep.begin_case(&case);
    let nw = std::mem::size_of::<T>() * 8;
    let mut one = |v: V, rep: &mut Report| {
        if !rep.state(&v) { return; }
        let e = wrap(v, N, signed);
        let t = T::from_v(v);
        let r = op(|| {
            let a: Integer<T, Bits<N>> = t.into();
            let b = <Integer<T, Bits<N>> as SizedInteger<T, Bits<N>>>::from_primitive(t);
            let c = <Integer<T, Bits<N>> as From<T>>::from(t);
            let back: T = a.into();
            let again: Integer<T, Bits<N>> = back.into();
            let copy = a;
            #[allow(clippy::clone_on_copy)]
            let cl = a.clone();
            let m = a.as_packed_msb();
            let l = a.as_packed_lsb();
            (vec![(*a).to_v(), (*b).to_v(), (*c).to_v(), back.to_v(), a.to_primitive().to_v(), (*again).to_v(), (*copy).to_v(), (*cl).to_v(), (**m).to_v(), (**l).to_v()],
             vec![a == b, a == c, a == again, again == a, !(a != b), h(&a) == h(&again), h(&a) == h(&T::into(T::from_v(e)))],
             [format!("{a}"), format!("{a:?}"), format!("{m}"), format!("{m:?}"), format!("{l}"), format!("{l:?}"), a.to_string()])
        });
        rep.trace();
        rep.outcome(&e);
        match r {
            Err(p) => rep.violation(&case, "c07", v.to_string(), e.to_string(), p),
            Ok((vals, eqs, strs)) => {
                let es = e.to_string();
                if vals.iter().any(|&x| x != e) || eqs.iter().any(|&x| !x) || strs.iter().any(|s| s != &es) {
                    rep.violation(&case, "c07", format!("from {v}"), format!("{e} by every route"), format!("values {vals:?} equalities {eqs:?} text {strs:?}"));
                }
            }
        }
        rep.sample(|| format!("{case} from {v} is {e}"));
    };
    for v in natives(nw, signed, rich) { one(v, rep); }
    // pairs: equality and hashing agree with equality of the wrapped values
    let c: Vec<V> = {
        let m = (1i128 << nw) - 1;
        let mut r: Vec<V> = vec![0, 1, -1, 2, -2];
        for k in [N - 1, N, N + 1, nw - 1, nw] { r.extend([1 << k, (1 << k) - 1, (1 << k) + 1, -(1 << k), m ^ (1 << k)]); }
        r.into_iter().map(|x| if signed { sext((x & m) as u128, nw) } else { x & m }).collect()
    };
    for &x in &c { for &y in &c {
        if !rep.state(&(x, y)) { continue; }
        let r = op(|| { let a: Integer<T, Bits<N>> = T::from_v(x).into(); let b: Integer<T, Bits<N>> = T::from_v(y).into(); (a == b, a != b, h(&a) == h(&b)) });
        rep.trace();
        let same = wrap(x, N, signed) == wrap(y, N, signed);
        let ok = match r { Ok((eq, ne, hh)) => eq == same && ne != same && (!same || hh), _ => false };
        if !ok { rep.violation(&case, "c07", format!("compare {x} with {y}"), format!("equal: {same}"), format!("(==, !=, same hash) = {r:?}")); }
    } }
    let r = op(|| (<Integer<T, Bits<N>> as SizedInteger<T, Bits<N>>>::value_bit_mask().to_v(), (*<Integer<T, Bits<N>>>::default()).to_v()));
    let mask = (1i128 << N) - 1;
    let mask = if signed { sext(mask as u128, nw) } else { mask };
    if r != Ok((mask, 0)) { rep.violation(&case, "c07", "value_bit_mask, default".into(), format!("{mask}, 0"), format!("{r:?}")); }
}

fn signed_helper<T, const N: usize>(name: &str, rich: bool, rep: &mut Report)
where Bits<N>: NumberOfBits, T: Prim + Debug, Integer<T, Bits<N>>: SizedIntegerSigned<T, Bits<N>>
{
    let case = format!("Integer<{name}, Bits<{N}>>::from_unpacked_to_signed");
    rep.begin_case(&case);
    let nw = std::mem::size_of::<T>() * 8;
    for v in natives(nw, true, rich) {
        if !rep.state(&v) { continue; }
        let r = op(|| <Integer<T, Bits<N>> as SizedIntegerSigned<T, Bits<N>>>::from_unpacked_to_signed(T::from_v(v)).to_v());
        rep.trace();
        let e = wrap(v, N, true);
        if r != Ok(e) { rep.violation(&case, "c07", v.to_string(), e.to_string(), format!("{r:?}")); }
    }
}

fn arr_of<A: ByteArray>(b: &[u8]) -> A { let mut a = A::new(0); a.as_mut_bytes_slice().copy_from_slice(b); a }
fn be(v: V, n: usize) -> Vec<u8> { (0..n).rev().map(|i| (v >> (8 * i)) as u8).collect() }

fn native_bytes<T: Prim + IntegerAsBytes>(name: &str, signed: bool, rich: bool, rep: &mut Report) where T::AsBytes: ByteArray {
    rep.begin_case(name);
    let n = std::mem::size_of::<T>();
    for v in natives(8 * n, signed, rich) {
        if !rep.state(&v) { continue; }
        let t = T::from_v(v);
        let m = be(v, n);
        let l: Vec<u8> = m.iter().rev().cloned().collect();
        let r = op(|| (t.to_msb_bytes().as_bytes_slice().to_vec(), t.to_lsb_bytes().as_bytes_slice().to_vec(), T::from_msb_bytes(&arr_of(&m)).to_v(), T::from_lsb_bytes(&arr_of(&l)).to_v()));
        rep.trace();
        let want = Ok((m, l, v, v));
        if r != want { rep.violation(name, "c08", v.to_string(), format!("{want:?}"), format!("{r:?}")); }
        rep.outcome(&v);
        rep.sample(|| format!("{name} {v} {:?}", r));
    }
}

fn sized_bytes<T, const N: usize>(name: &str, signed: bool, rich: bool, mode: &str, rep: &mut Report)
where Bits<N>: NumberOfBits, T: Prim + Into<Integer<T, Bits<N>>>, Integer<T, Bits<N>>: SizedInteger<T, Bits<N>> + Copy + Deref<Target = T>
{
    let case = format!("Integer<{name}, Bits<{N}>>");
    rep.begin_case(&case);
    let nb = N.div_ceil(8);
    let pad = nb * 8 - N;
    let leaf = |lsb| { let mut s = Spec { name: "x".into(), nbytes: nb, nbits: nb * 8, leaves: vec![L { kind: if signed { Kind::S } else { Kind::U }, start: pad, width: N, cut: 0, lsb, native: N, signed, disc: vec![], name: "x".into() }], ..Default::default() }; s.finish(); s };
    let (sm, sl) = (leaf(false), leaf(true));
    let (mut wm, mut wl, mut vm, mut vl) = (vec![], vec![], vec![], vec![]);
    // values
    for v in patterns(N, 16, rich).into_iter().map(|p| if signed { sext(p as u128, N) } else { p as V }) {
        if !rep.state(&(0, v)) { continue; }
        let i: Integer<T, Bits<N>> = T::from_v(v).into();
        let m = be(v, nb);
        let l: Vec<u8> = m.iter().rev().cloned().collect();
        if mode == "c08" {
            let r = op(|| {
                let tm = i.to_msb_bytes()?;
                let tl = i.to_lsb_bytes()?;
                let bm = Integer::<T, Bits<N>>::from_msb_bytes(&tm)?;
                let bl = Integer::<T, Bits<N>>::from_lsb_bytes(&tl)?;
                Ok::<_, PackingError>((tm.as_bytes_slice().to_vec(), tl.as_bytes_slice().to_vec(), (*bm).to_v(), (*bl).to_v()))
            });
            rep.trace();
            let want = Ok(Ok((m, l, v, v)));
            if r != want { rep.violation(&case, mode, v.to_string(), format!("{want:?}"), format!("{r:?}")); }
        }
        // the packing helpers
        let r = op(|| {
            let pm = i.as_packed_msb().pack()?;
            let pl = i.as_packed_lsb().pack()?;
            let um = MsbInteger::<T, Bits<N>, Integer<T, Bits<N>>>::unpack(&pm)?;
            let ul = LsbInteger::<T, Bits<N>, Integer<T, Bits<N>>>::unpack(&pl)?;
            let fm: MsbInteger<T, Bits<N>, Integer<T, Bits<N>>> = i.into();
            let fl: LsbInteger<T, Bits<N>, Integer<T, Bits<N>>> = i.into();
            let same = fm.pack()?.as_bytes_slice() == pm.as_bytes_slice() && fl.pack()?.as_bytes_slice() == pl.as_bytes_slice();
            Ok::<_, PackingError>((pm.as_bytes_slice().to_vec(), pl.as_bytes_slice().to_vec(), (**um).to_v(), (**ul).to_v(), same))
        });
        rep.trace();
        sm.pack(&[v], &mut wm);
        sl.pack(&[v], &mut wl);
        let ok = match &r {
            Ok(Ok((pm, pl, um, ul, same))) => {
                let low = |b: &[u8]| -> Vec<bool> { (pad..nb * 8).map(|k| get_bit(b, k)).collect() };
                let strict = !(signed && v < 0);
                pm.len() == nb && pl.len() == nb && low(pm) == low(&wm) && low(pl) == low(&wl) && (!strict || (*pm == wm && *pl == wl)) && *um == v && *ul == v && *same
            }
            _ => false,
        };
        if !ok { rep.violation(&case, mode, format!("pack {v}"), format!("msb {wm:?} lsb {wl:?}, back {v}"), format!("{r:?}")); }
        rep.outcome(&wl);
        rep.sample(|| format!("{case} {v}: {r:?}"));
    }
    // arbitrary bytes
    for p in patterns(8 * nb, 16, rich) {
        if !rep.state(&(1, p)) { continue; }
        let b: Vec<u8> = be(p as V, nb);
        let rev: Vec<u8> = b.iter().rev().cloned().collect();
        if mode == "c08" {
            let want = wrap(p as V, N, signed);
            let r = op(|| Ok::<_, PackingError>(((*Integer::<T, Bits<N>>::from_msb_bytes(&arr_of(&b))?).to_v(), (*Integer::<T, Bits<N>>::from_lsb_bytes(&arr_of(&rev))?).to_v())));
            rep.trace();
            if r != Ok(Ok((want, want))) { rep.violation(&case, mode, format!("from_msb_bytes {b:?}, from_lsb_bytes {rev:?}"), want.to_string(), format!("{r:?}")); }
        }
        let r = op(|| Ok::<_, PackingError>(((**MsbInteger::<T, Bits<N>, Integer<T, Bits<N>>>::unpack(&arr_of(&b))?).to_v(), (**LsbInteger::<T, Bits<N>, Integer<T, Bits<N>>>::unpack(&arr_of(&b))?).to_v())));
        rep.trace();
        let _ = (sm.unpack(&b, &mut vm), sl.unpack(&b, &mut vl));
        if r != Ok(Ok((vm[0], vl[0]))) { rep.violation(&case, mode, format!("unpack {b:?}"), format!("msb {} lsb {}", vm[0], vl[0]), format!("{r:?}")); }
    }
}

// does a type implement a marker trait, without requiring it
struct Probe<T>(std::marker::PhantomData<T>);
trait NotFull { fn full(&self) -> bool { false } }
impl<T> NotFull for &Probe<T> {}
impl<T: BitsFullBytes> Probe<T> { fn full(&self) -> bool { true } }
trait NotPartial { fn partial(&self) -> bool { false } }
impl<T> NotPartial for &Probe<T> {}
impl<T: BitsPartialBytes> Probe<T> { fn partial(&self) -> bool { true } }

fn expect_sizes(rep: &mut Report, case: &str, want: &[usize], f: impl FnOnce() -> Vec<usize>) {
    rep.begin_case(case);
    rep.state(case);
    let r = op(f);
    rep.trace();
    rep.outcome(want);
    if r.as_ref().map(|x| x.as_slice()) != Ok(want) { rep.violation(case, "size", "reported sizes".into(), format!("{want:?}"), format!("{r:?}")); }
    rep.sample(|| format!("{case}: {r:?}"));
}
fn bits_sizes<const N: usize>(full: bool, partial: bool, rep: &mut Report) where Bits<N>: NumberOfBits {
    let nb = (N + 7) / 8;
    expect_sizes(rep, &format!("Bits<{N}>"), &[N, nb, nb, nb, (N % 8 == 0) as usize, (N % 8 != 0) as usize], || vec![
        <Bits<N> as NumberOfBits>::number_of_bits(), <Bits<N> as NumberOfBits>::byte_array_len(),
        <<Bits<N> as NumberOfBits>::Bytes as NumberOfBytes>::number_of_bytes(), std::mem::size_of::<Arr<Bits<N>>>(), full as usize, partial as usize]);
    expect_sizes(rep, &format!("Reserved Bits<{N}>"), &[N, N, nb, nb, nb], || vec![
        <ReservedZero<Bits<N>> as PackedStructInfo>::packed_bits(), <ReservedOne<Bits<N>> as PackedStructInfo>::packed_bits(),
        <<ReservedZeroes<Bits<N>> as PackedStruct>::ByteArray as ByteArray>::len(), <ReservedOnes<Bits<N>> as PackedStructSlice>::packed_bytes_size(None).unwrap_or(9999),
        std::mem::size_of::<<ReservedOne<Bits<N>> as PackedStruct>::ByteArray>()]);
}
fn int_sizes<T: Prim, const N: usize>(name: &str, rep: &mut Report)
where Bits<N>: NumberOfBits, T: Into<Integer<T, Bits<N>>>, Integer<T, Bits<N>>: SizedInteger<T, Bits<N>> + Copy
{
    let nb = N.div_ceil(8);
    type M<T, const N: usize> = MsbInteger<T, Bits<N>, Integer<T, Bits<N>>>;
    type Ls<T, const N: usize> = LsbInteger<T, Bits<N>, Integer<T, Bits<N>>>;
    expect_sizes(rep, &format!("{name}:{N}"), &[N, N, nb, nb, nb, nb, nb], || {
        let i: Integer<T, Bits<N>> = T::from_v(1).into();
        vec![M::<T, N>::packed_bits(), Ls::<T, N>::packed_bits(), <M<T, N> as PackedStruct>::ByteArray::len(), <Ls<T, N> as PackedStruct>::ByteArray::len(),
            M::<T, N>::packed_bytes_size(None).unwrap(), Ls::<T, N>::packed_bytes_size(Some(&i.as_packed_lsb())).unwrap(), i.as_packed_msb().pack_to_vec().unwrap().len()]
    });
}
fn array_sizes<const N: usize>(rep: &mut Report) {
    expect_sizes(rep, &format!("[u8; {N}]"), &[8 * N, N, N, N, N], || vec![<[u8; N]>::packed_bits(), <<[u8; N] as PackedStruct>::ByteArray as ByteArray>::len(), <[u8; N]>::packed_bytes_size(None).unwrap(), <[u8; N]>::packed_bytes_size(Some(&[1; N])).unwrap(), <Bytes<N> as NumberOfBytes>::number_of_bytes()]);
}

fn reserved<const N: usize>(rep: &mut Report) where Bits<N>: NumberOfBits {
    let nb = N.div_ceil(8);
    let pad = nb * 8 - N;
    for one in [false, true] {
        let case = format!("Reserved{}<Bits<{N}>>", if one { "One" } else { "Zero" });
        rep.begin_case(&case);
        let r = op(|| if one { ReservedOne::<Bits<N>>::default().pack().map(|a| a.as_bytes_slice().to_vec()) } else { ReservedZero::<Bits<N>>::default().pack().map(|a| a.as_bytes_slice().to_vec()) });
        rep.state("pack");
        rep.trace();
        let ok = matches!(&r, Ok(Ok(b)) if b.len() == nb && (pad..nb * 8).all(|k| get_bit(b, k) == one));
        if !ok { rep.violation(&case, "c10", "pack".into(), format!("all {}s in the last {N} bits", one as u8), format!("{r:?}")); }
        for bg in [0u8, 0xFF, 0x5A] { for k in 0..=nb * 8 {
            let mut b = vec![bg; nb];
            if k < nb * 8 { b[k / 8] ^= 0x80 >> (k % 8); }
            if !rep.state(&b) { continue; }
            let r = op(|| if one { ReservedOne::<Bits<N>>::unpack(&arr_of(&b)).map(|x| x == Default::default()) } else { ReservedZero::<Bits<N>>::unpack(&arr_of(&b)).map(|x| x == Default::default()) });
            rep.trace();
            if r != Ok(Ok(true)) { rep.violation(&case, "c10", format!("unpack {b:?}"), "the same value".into(), format!("{r:?}")); }
        } }
        rep.sample(|| format!("{case}: {r:?}"));
    }
}

fn strings<const N: usize>() -> Vec<[u8; N]> {
    let mut r = vec![[0; N], [0xFF; N], [0xA5; N], std::array::from_fn(|i| (i + 1) as u8), std::array::from_fn(|i| (i * 37 + 11) as u8)];
    if N <= 2 { for x in 0..(1u32 << (8 * N)) { r.push(std::array::from_fn(|i| (x >> (8 * i)) as u8)); } }
    let near = |i: usize| N <= 1000 || i < 3 || i + 3 >= N || (1..17).any(|k| i + 1 >= 1 << k && i <= 1 << k);
    for i in (0..N).filter(|&i| near(i)) { for x in if N > 4000 { [0x81u8; 4] } else { [1u8, 0x80, 0x7F, 0xFE] } { let mut a = [0; N]; a[i] = x; r.push(a); let mut a = [0xFF; N]; a[i] = x; r.push(a); } }
    r
}
fn byte_array_type<const N: usize>(rep: &mut Report) {
    let case = format!("[u8; {N}]");
    rep.begin_case(&case);
    for s in strings::<N>() {
        if !rep.state(&s) { continue; }
        let r = op(|| {
            let p = s.pack()?;
            let u = <[u8; N]>::unpack(&s)?;
            let v = s.pack_to_vec()?;
            let us = <[u8; N]>::unpack_from_slice(&s)?;
            let mut buf = [0x33u8; N];
            s.pack_to_slice(&mut buf)?;
            Ok::<_, PackingError>(p == s && u == s && v == s && us == s && buf == s)
        });
        rep.trace();
        rep.outcome(&s);
        if r != Ok(Ok(true)) { rep.violation(&case, "c31", format!("{s:?}"), "packs to and unpacks from itself".into(), format!("{r:?}")); }
        rep.sample(|| format!("{case} {:?} {r:?}", &s[..N.min(8)]));
    }
}
fn brief(x: impl std::fmt::Debug) -> String { let mut s = format!("{x:?}"); if s.len() > 1500 { s.truncate(1500); s += "..."; } s }
fn helpers<const N: usize>(rep: &mut Report, rich: bool) {
    let case = format!("ByteArray [u8; {N}]");
    rep.begin_case(&case);
    for v in 0..=255u8 {
        if !rep.state(&(0, v)) { continue; }
        let r = op(|| { let a = <[u8; N] as ByteArray>::new(v); (a, <[u8; N] as ByteArray>::len(), a.as_bytes_slice().to_vec()) });
        rep.trace();
        if r != Ok(([v; N], N, vec![v; N])) { rep.violation(&case, "c32", format!("new({v})"), format!("{N} bytes of {v}"), brief(r)); }
    }
    for s in if N > 64 && !rich { vec![std::array::from_fn(|i| (i * 37 + 11) as u8), [0xFF; N]] } else { strings::<N>() } {
        if !rep.state(&(1, s)) { continue; }
        let r = op(|| { let mut a = s; let x = a.as_bytes_slice().to_vec(); let y = a.as_mut_bytes_slice().to_vec(); for (i, b) in a.as_mut_bytes_slice().iter_mut().enumerate() { *b = i as u8 ^ 0x77; } (x, y, a) });
        rep.trace();
        if r != Ok((s.to_vec(), s.to_vec(), std::array::from_fn(|i| i as u8 ^ 0x77))) { rep.violation(&case, "c32", format!("slices of {}", brief(s)), "the array's bytes".into(), brief(r)); }
        let far = N > 5000 && !rich;
        for k in 0..N {
            // every shift, or those at both ends and about the powers of two
            if far && k > 9 && k + 9 < N && !(8..40).any(|b| k + 1 >= 1 << b && k <= 1 + (1 << b)) { continue; }
            if !rep.state(&(2, s, k)) { continue; }
            let r = op(|| { let mut a = s; ByteArray::rotate_right(&mut a, k); a });
            rep.trace();
            let want: [u8; N] = std::array::from_fn(|i| if i < k { 0 } else { s[i - k] });
            rep.outcome(&want);
            if r != Ok(want) { rep.violation(&case, "c32", format!("rotate_right({k}) of {}", brief(s)), brief(want), brief(r)); }
        }
        rep.sample(|| format!("{case} {:?} rotated by 0..{N}", &s[..N.min(6)]));
    }
}

fn elementary(rep: &mut Report) {
    rep.begin_case("u8 i8 bool ()");
    for x in 0..=255u8 {
        rep.state(&x);
        let r = op(|| (x.pack(), u8::unpack(&[x]), (x as i8).pack(), i8::unpack(&[x]), bool::unpack(&[x]), x.pack_to_vec(), (x as i8).pack_to_vec(), u8::unpack_from_slice(&[x]), i8::unpack_from_slice(&[x]), bool::unpack_from_slice(&[x])));
        rep.trace();
        let b = match x { 0 => Ok(false), 1 => Ok(true), _ => Err(PackingError::InvalidValue) };
        let want = Ok((Ok([x]), Ok(x), Ok([x]), Ok(x as i8), b.clone(), Ok(vec![x]), Ok(vec![x]), Ok(x), Ok(x as i8), b));
        rep.outcome(&x);
        if r != want { rep.violation("u8 i8 bool", "c31", format!("byte {x}"), format!("{want:?}"), format!("{r:?}")); }
        rep.sample(|| format!("{x}: {r:?}"));
    }
    let r = op(|| (true.pack(), false.pack(), ().pack(), <()>::unpack(&[]), ().pack_to_vec(), <()>::unpack_from_slice(&[]), true.pack_to_vec(), <()>::unpack_from_slice(&[1])));
    rep.trace();
    rep.state("bool");
    let want = Ok((Ok([1]), Ok([0]), Ok([]), Ok(()), Ok(vec![]), Ok(()), Ok(vec![1]), Err(PackingError::BufferSizeMismatch { expected: 0, actual: 1 })));
    if r != want { rep.violation("bool ()", "c31", "pack".into(), format!("{want:?}"), format!("{r:?}")); }
}

fn show_ints<T, const N: usize>(name: &str, rep: &mut Report)
where Bits<N>: NumberOfBits, T: Prim + Display + Debug + Into<Integer<T, Bits<N>>>, Integer<T, Bits<N>>: SizedInteger<T, Bits<N>> + Copy + Debug + Display
{
    use mc::show::failing;
    let case = format!("Integer<{name}, Bits<{N}>>");
    rep.begin_case(&case);
    for v in [0, 1, -1, 1i128 << (N - 1)] {
        let a: Integer<T, Bits<N>> = T::from_v(v).into();
        let (m, l) = (a.as_packed_msb(), a.as_packed_lsb());
        failing(&case, &format!("Display of {v}"), 400, &|w| write!(w, "{a}"), rep);
        failing(&case, &format!("Debug of {v}"), 400, &|w| write!(w, "{a:?}"), rep);
        failing(&case, &format!("Display of MSB {v}"), 400, &|w| write!(w, "{m}"), rep);
        failing(&case, &format!("Debug of MSB {v}"), 400, &|w| write!(w, "{m:?}"), rep);
        failing(&case, &format!("Display of LSB {v}"), 400, &|w| write!(w, "{l}"), rep);
        failing(&case, &format!("Debug of LSB {v}"), 400, &|w| write!(w, "{l:?}"), rep);
    }
}

fn show_reserved<const N: usize>(rep: &mut Report) where Bits<N>: NumberOfBits {
    use mc::show::failing;
    let case = format!("ReservedZero / ReservedOne <Bits<{N}>>");
    rep.begin_case(&case);
    let (z, o) = (ReservedZero::<Bits<N>>::default(), ReservedOne::<Bits<N>>::default());
    failing(&case, "Display of zeros", 400, &|w| write!(w, "{z}"), rep);
    failing(&case, "Debug of zeros", 400, &|w| write!(w, "{z:?}"), rep);
    failing(&case, "Display of ones", 400, &|w| write!(w, "{o}"), rep);
    failing(&case, "Debug of ones", 400, &|w| write!(w, "{o:?}"), rep);
}

/// errors, bit ranges, and the visualisation of a value that fails to pack
fn show_rest(rep: &mut Report) {
    use mc::show::failing;
    use packed_struct::debug_fmt::{packable_fmt_fields, DebugBinaryByteSlice, DebugBitField, PackedStructDebug, PackedStructDisplay};
    let errors = [PackingError::InvalidValue, PackingError::BitsError, PackingError::BufferTooSmall, PackingError::NotImplemented, PackingError::InstanceRequiredForSize,
        PackingError::MoreThanOneDynamicType, PackingError::BufferSizeMismatch { expected: 12, actual: 345 }, PackingError::BufferModMismatch { actual_size: 7, modulo_required: 3 },
        PackingError::SliceIndexingError { slice_len: 9 }, PackingError::InternalError];
    rep.begin_case("PackingError");
    for e in &errors {
        failing("PackingError", &format!("Display of {e:?}"), 400, &|w| write!(w, "{e}"), rep);
    }
    rep.begin_case("DebugBinaryByteSlice");
    let bytes: Vec<u8> = (0..5u8).map(|i| i.wrapping_mul(0x5D) ^ 0xA6).collect();
    for start in 0..40 { for end in start..40 {
        failing("DebugBinaryByteSlice", &format!("{start}..={end}"), 400, &|w| write!(w, "{:b}", DebugBinaryByteSlice { bits: &(start..end), slice: &bytes }), rep);
    } }
    rep.begin_case("packable_fmt_fields");
    struct Listing<'a>(&'a [u8], &'a [DebugBitField<'a>]);
    impl Display for Listing<'_> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { packable_fmt_fields(f, self.0, self.1) } }
    for widths in [&[][..], &[1], &[8, 3], &[1, 7, 8, 16, 3], &[33, 2], &[2, 36]] {
        let mut at = 0;
        let fields: Vec<DebugBitField> = widths.iter().enumerate().map(|(i, &n)| { at += n; DebugBitField { name: "name".repeat(i + 1).into(), bits: at - n..at - 1, display_value: format!("value \"{i}\" \u{e9}").into() } }).collect();
        failing("packable_fmt_fields", &format!("fields of {widths:?} bits"), 4000, &|w| write!(w, "{}", Listing(&bytes, &fields)), rep);
    }
    rep.begin_case("a value that fails to pack");
    struct Bad(PackingError);
    impl PackedStruct for Bad {
        type ByteArray = [u8; 2];
        fn pack(&self) -> Result<[u8; 2], PackingError> { Err(self.0) }
        fn unpack(_: &[u8; 2]) -> Result<Self, PackingError> { Err(PackingError::InternalError) }
    }
    impl PackedStructDebug for Bad {
        fn fmt_fields(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { Ok(()) }
        fn packed_struct_display_header() -> &'static str { "Bad" }
    }
    for e in errors {
        failing("a value that fails to pack", &format!("{e:?}"), 400, &|w| write!(w, "{}", PackedStructDisplay::new(&Bad(e))), rep);
    }
    // a field listing that fails of its own accord
    rep.begin_case("a field listing that fails");
    struct Half(usize);
    impl PackedStruct for Half {
        type ByteArray = [u8; 2];
        fn pack(&self) -> Result<[u8; 2], PackingError> { Ok([1, 2]) }
        fn unpack(_: &[u8; 2]) -> Result<Self, PackingError> { Err(PackingError::InternalError) }
    }
    impl PackedStructDebug for Half {
        fn fmt_fields(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { for _ in 0..self.0 { f.write_str("part")?; } Err(std::fmt::Error) }
        fn packed_struct_display_header() -> &'static str { "Half" }
    }
    for n in 0..4 { for fl in 0..32 {
        if !rep.state(&(n, fl)) { continue; }
        let h = Half(n);
        let mut d = PackedStructDisplay::new(&h);
        d.header = fl & 1 != 0; d.raw_decimal = fl & 2 != 0; d.raw_hex = fl & 4 != 0; d.raw_binary = fl & 8 != 0; d.fields = fl & 16 != 0;
        let r = op(|| { use std::fmt::Write; let mut s = String::new(); let r = write!(s, "{d}"); (r, s.matches("part").count()) });
        rep.trace();
        let want = if fl & 16 != 0 { (Err(std::fmt::Error), n) } else { (Ok(()), 0) };
        if r != Ok(want) { rep.violation("a field listing that fails", "showfail", format!("{n} parts, sections {fl}"), format!("{want:?}"), format!("{r:?}")); return; }
    } }
}

fn main() {
    init();
    let a: Vec<String> = std::env::args().collect();
    let rich = a[2] == "thorough";
    let mut rep = Report::default();
    let rep = &mut rep;
    let mode = a[1].as_str();
    let _ = light_patterns(1);
    macro_rules! ints { ($($T:ident $s:literal : $($n:literal)*;)*) => { $( $( /*INTS*/ )* )* } }
    macro_rules! signed { ($($T:ident : $($n:literal)*;)*) => { $( $( signed_helper::<$T, $n>(stringify!($T), rich, rep); )* )* } }
    macro_rules! bits { ($($n:literal)*) => { $( /*BITS*/ )* } }
    macro_rules! arrays { ($($n:literal)*) => { $( /*ARRAYS*/ )* } }
    /*LISTS*/
    /*ONCE*/
    std::mem::take(rep).finish();
}
