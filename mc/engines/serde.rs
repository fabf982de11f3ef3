// Serialisation of the helper types. args: mode tier
use mc::report::*;
use mc::domain::patterns;
use mc::model::sext;
use mc::{Prim, V};
use packed_struct::prelude::*;
use packed_struct::prelude::packed_bits::*;
use serde::de::{value::Error as VE, DeserializeOwned, IntoDeserializer};
use serde::{Deserialize, Serialize, Serializer};
use std::collections::HashMap;
use std::fmt::{Debug, Display};
use std::hash::Hash;

fn wrap(v: V, n: usize, signed: bool) -> V {
    let raw = (v as u128) & ((1u128 << n) - 1);
    if signed { sext(raw, n) } else { raw as V }
}

/// the number that a value serialises as, through the serialiser's integer methods
struct Plain<const READABLE: bool>;
macro_rules! plain {
    ($($m:ident $t:ty),*) => { $(fn $m(self, v: $t) -> Result<V, VE> { Ok(v as V) })* }
}
macro_rules! no {
    ($($m:ident ($($t:ty),*) -> $r:ty;)*) => { $(#[allow(unused_variables)] fn $m(self, $(_: $t),*) -> Result<$r, VE> { Err(serde::ser::Error::custom(stringify!($m))) })* }
}
type Imp = serde::ser::Impossible<V, VE>;
impl<const READABLE: bool> Serializer for Plain<READABLE> {
    fn is_human_readable(&self) -> bool { READABLE }
    type Ok = V; type Error = VE;
    type SerializeSeq = Imp; type SerializeTuple = Imp; type SerializeTupleStruct = Imp; type SerializeTupleVariant = Imp; type SerializeMap = Imp; type SerializeStruct = Imp; type SerializeStructVariant = Imp;
    plain!(serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_i128 i128);
    no! { serialize_bool(bool) -> V; serialize_f32(f32) -> V; serialize_f64(f64) -> V; serialize_char(char) -> V; serialize_str(&str) -> V; serialize_bytes(&[u8]) -> V; serialize_none() -> V; serialize_unit() -> V;
        serialize_unit_struct(&'static str) -> V; serialize_unit_variant(&'static str, u32, &'static str) -> V; serialize_seq(Option<usize>) -> Imp; serialize_tuple(usize) -> Imp; serialize_tuple_struct(&'static str, usize) -> Imp;
        serialize_tuple_variant(&'static str, u32, &'static str, usize) -> Imp; serialize_map(Option<usize>) -> Imp; serialize_struct(&'static str, usize) -> Imp; serialize_struct_variant(&'static str, u32, &'static str, usize) -> Imp; }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<V, VE> { Err(serde::ser::Error::custom("some")) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> Result<V, VE> { Err(serde::ser::Error::custom("newtype")) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<V, VE> { Err(serde::ser::Error::custom("newtype")) }
}

/// A number in a format that knows what it holds (as the named integer type), or that only gives what it is asked for.
struct Coded<const TYPED: bool, const READABLE: bool> { v: V, kind: usize }
macro_rules! asked { ($($m:ident $visit:ident $t:ty),*) => {
    impl<const TYPED: bool, const READABLE: bool> Coded<TYPED, READABLE> {
        const KINDS: &'static [&'static str] = &[$(stringify!($t)),*];
        fn held<'de, W: serde::de::Visitor<'de>>(self, w: W) -> Result<W::Value, VE> {
            let mut k = 0;
            $( if self.kind == k { return w.$visit(<$t>::try_from(self.v).map_err(|_| serde::de::Error::custom("not held"))?) } k += 1; )*
            let _ = k;
            unreachable!()
        }
    }
    impl<'de, const TYPED: bool, const READABLE: bool> serde::Deserializer<'de> for Coded<TYPED, READABLE> {
        type Error = VE;
        fn is_human_readable(&self) -> bool { READABLE }
        $( fn $m<W: serde::de::Visitor<'de>>(self, w: W) -> Result<W::Value, VE> {
            if !TYPED { return self.held(w) }
            match <$t>::try_from(self.v) { Ok(x) => w.$visit(x), Err(_) => Err(serde::de::Error::custom("too large to be encoded")) }
        } )*
        fn deserialize_any<W: serde::de::Visitor<'de>>(self, w: W) -> Result<W::Value, VE> { if TYPED { Err(serde::de::Error::custom("the format does not describe itself")) } else { self.held(w) } }
        serde::forward_to_deserialize_any! { bool f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
    }
} }
asked! { deserialize_u8 visit_u8 u8, deserialize_u16 visit_u16 u16, deserialize_u32 visit_u32 u32, deserialize_u64 visit_u64 u64, deserialize_u128 visit_u128 u128,
    deserialize_i8 visit_i8 i8, deserialize_i16 visit_i16 i16, deserialize_i32 visit_i32 i32, deserialize_i64 visit_i64 i64, deserialize_i128 visit_i128 i128 }

#[derive(Serialize, Deserialize)]
struct Holder<I> { before: u8, it: I, many: Vec<I>, opt: Option<I>, pair: (I, I) }

fn coded_fits(v: V, name: &str) -> bool {
    let (bits, signed) = (name[1..].parse::<u32>().unwrap(), name.starts_with('i'));
    if signed { v >= -(1i128 << (bits - 1)) && v < 1i128 << (bits - 1) } else { v >= 0 && v < 1i128 << bits }
}
fn through<I: DeserializeOwned, T: Copy>(v: V, out: &mut Vec<(String, Result<I, String>)>) {
    macro_rules! one { ($($t:ty),*) => { $( if let Ok(x) = <$t>::try_from(v) {
        let d = IntoDeserializer::<VE>::into_deserializer(x);
        out.push((stringify!($t).to_string(), I::deserialize(d).map_err(|e| e.to_string())));
    } )* } }
    one!(u8, u16, u32, u64, i8, i16, i32, i64);
    for (kind, name) in Coded::<false, false>::KINDS.iter().enumerate() {
        if name.ends_with("128") { continue; } // (serde's native types take no 128-bit number)
        if !coded_fits(v, name) { continue; }
        out.push((format!("binary {name}"), I::deserialize(Coded::<false, false> { v, kind }).map_err(|e| e.to_string())));
        out.push((format!("text {name}"), I::deserialize(Coded::<false, true> { v, kind }).map_err(|e| e.to_string())));
    }
    out.push(("typed binary".into(), I::deserialize(Coded::<true, false> { v, kind: 0 }).map_err(|e| e.to_string())));
    out.push(("typed text".into(), I::deserialize(Coded::<true, true> { v, kind: 0 }).map_err(|e| e.to_string())));
    out.push(("text".into(), serde_json::from_str::<I>(&v.to_string()).map_err(|e| e.to_string())));
    out.push(("spaced text".into(), serde_json::from_str::<I>(&format!(" {v} ")).map_err(|e| e.to_string())));
    if let Ok(x) = serde_json::from_str::<serde_json::Value>(&v.to_string()) {
        out.push(("value".into(), serde_json::from_value::<I>(x).map_err(|e| e.to_string())));
    }
    out.push(("array".into(), serde_json::from_str::<(I,)>(&format!("[{v}]")).map(|x| x.0).map_err(|e| e.to_string())));
    out.push(("option".into(), serde_json::from_str::<Option<I>>(&format!("{v}")).map_err(|e| e.to_string()).and_then(|x| x.ok_or("none".to_string()))));
}

fn serial<T, const N: usize>(name: &str, signed: bool, rich: bool, rep: &mut Report)
where Bits<N>: NumberOfBits, T: Prim + Display + Debug + PartialEq + Copy + Into<Integer<T, Bits<N>>> + Serialize + DeserializeOwned,
      Integer<T, Bits<N>>: SizedInteger<T, Bits<N>> + Eq + Copy + Debug + Hash
{
    type I<T, const N: usize> = Integer<T, Bits<N>>;
    let case = format!("Integer<{name}, Bits<{N}>>");
    rep.begin_case(&case);
    let nw = std::mem::size_of::<T>() * 8;
    let all: Vec<V> = patterns(nw, 16, rich).into_iter().map(|p| if signed { sext(p as u128, nw) } else { p as V }).collect();
    for &v in &all {
        if !rep.state(&v) { continue; }
        let e = wrap(v, N, signed);
        let a: I<T, N> = T::from_v(v).into();
        let r = op(|| {
            let mut bad = vec![];
            for x in [a.serialize(Plain::<true>), a.serialize(Plain::<false>)] { match x { Ok(x) if x == e => {} x => bad.push(format!("serialises as {x:?}")) } }
            let j = serde_json::to_string(&a).unwrap_or_else(|x| x.to_string());
            if j != e.to_string() { bad.push(format!("serialises to the text {j}")); }
            if serde_json::to_value(a).ok().map(|x| x.to_string()) != Some(e.to_string()) { bad.push("to_value".into()); }
            match serde_json::from_str::<I<T, N>>(&j) { Ok(b) if b == a && b.to_primitive().to_v() == e => {} x => bad.push(format!("{j} deserialises to {x:?}")) }
            // any number of the native type, in range or not
            let mut got = vec![];
            through::<I<T, N>, T>(v, &mut got);
            for (how, g) in got {
                match g { Ok(b) if b == a && b.to_primitive().to_v() == e => {} x => bad.push(format!("{v} as {how} deserialises to {x:?}")) }
            }
            bad
        });
        rep.trace();
        rep.outcome(&e);
        match r { Ok(b) if b.is_empty() => {}, x => rep.violation(&case, "c29", v.to_string(), format!("the number {e}"), format!("{x:?}")) }
        rep.sample(|| format!("{case} from {v} serialises as {e}"));
    }
    // inside other data, and as the key of a map
    let m = (1i128 << nw) - 1;
    for x in [0, 1, -1, 1 << (N - 1), (1 << (N - 1)) - 1, 1i128 << N, (1i128 << N) - 1, m, m >> 1] {
        let v = if signed { sext((x & m) as u128, nw) } else { x & m };
        if !rep.state(&("held", v)) { continue; }
        let e = wrap(v, N, signed);
        let a: I<T, N> = T::from_v(v).into();
        let b: I<T, N> = T::from_v(0).into();
        let r = op(|| {
            let h = Holder { before: 7, it: a, many: vec![a, b, a], opt: Some(a), pair: (b, a) };
            let j = serde_json::to_string(&h).unwrap();
            let want = format!("{{\"before\":7,\"it\":{e},\"many\":[{e},0,{e}],\"opt\":{e},\"pair\":[0,{e}]}}");
            let raw = format!("{{\"before\":7,\"it\":{v},\"many\":[{v},0,{v}],\"opt\":{v},\"pair\":[0,{v}]}}");
            let same = |t: &str| serde_json::from_str::<Holder<I<T, N>>>(t).map(|h| h.it == a && h.many == [a, b, a] && h.opt == Some(a) && h.pair == (b, a)).map_err(|x| x.to_string());
            let k: HashMap<I<T, N>, u8> = [(a, 9)].into_iter().collect();
            let kj = serde_json::to_string(&k).unwrap();
            let kb = serde_json::from_str::<HashMap<I<T, N>, u8>>(&format!("{{\"{v}\":9}}")).map_err(|x| x.to_string());
            (j == want, same(&j), same(&raw), kj == format!("{{\"{e}\":9}}"), kb.map(|x| x == k))
        });
        rep.trace();
        if r != Ok((true, Ok(true), Ok(true), true, Ok(true))) { rep.violation(&case, "c29", format!("{v} inside other data"), "the number in its place, and back".into(), format!("{r:?}")); }
    }
    // numbers outside the native type
    let (lo, hi) = if signed { (-(1i128 << (nw - 1)), (1i128 << (nw - 1)) - 1) } else { (0, m) };
    let mut out: Vec<V> = vec![];
    for b in [lo, hi] { for d in 1..300 { out.extend([b - d, b + d]); } }
    for k in 0..66 { for d in [-1, 0, 1] { out.extend([(1i128 << k) + d, -(1i128 << k) + d]); } }
    // the same low bits as a number of the native type
    for &v in all.iter().take(600) { for k in 1..4 { out.extend([v + (k << nw), v - (k << nw)]); } }
    for v in out {
        if v >= lo && v <= hi { continue; }
        if !rep.state(&("outside", v)) { continue; }
        let r = op(|| { let mut got = vec![]; through::<I<T, N>, T>(v, &mut got); got.into_iter().filter(|x| x.1.is_ok()).map(|(h, x)| format!("as {h}: {:?}", x.ok())).collect::<Vec<_>>() });
        rep.trace();
        if !matches!(&r, Ok(x) if x.is_empty()) { rep.violation(&case, "c29", format!("{v}, outside {name}"), "rejected".into(), format!("{r:?}")); }
    }
}

fn helpers(rep: &mut Report) {
    use packed_struct::PackingError::{self, *};
    rep.begin_case("PackingError");
    let mut es = vec![InvalidValue, BitsError, BufferTooSmall, NotImplemented, InstanceRequiredForSize, MoreThanOneDynamicType, InternalError];
    let ns = [0usize, 1, 2, 7, 8, 255, 256, 65535, 65536, u32::MAX as usize, u32::MAX as usize + 1, usize::MAX - 1, usize::MAX];
    for a in ns {
        es.push(SliceIndexingError { slice_len: a });
        for b in ns { es.push(BufferSizeMismatch { expected: a, actual: b }); es.push(BufferModMismatch { actual_size: a, modulo_required: b }); }
    }
    for e in es {
        if !rep.state(&format!("{e:?}")) { continue; }
        let r = op(|| {
            let j = serde_json::to_string(&e).map_err(|x| x.to_string())?;
            let v = serde_json::to_value(e).map_err(|x| x.to_string())?;
            Ok::<_, String>((serde_json::from_str::<PackingError>(&j).map_err(|x| x.to_string())?, serde_json::from_value::<PackingError>(v).map_err(|x| x.to_string())?))
        });
        rep.trace();
        if r != Ok(Ok((e, e))) { rep.violation("PackingError", "c29", format!("{e:?}"), "itself".into(), format!("{r:?}")); }
    }
}

fn reserved<const N: usize>(rep: &mut Report) where Bits<N>: NumberOfBits, ReservedZero<Bits<N>>: Serialize + DeserializeOwned + Default + PartialEq + Debug, ReservedOne<Bits<N>>: Serialize + DeserializeOwned + Default + PartialEq + Debug {
    rep.begin_case("reserved");
    rep.state(&N);
    let r = op(|| {
        let (z, o) = (ReservedZero::<Bits<N>>::default(), ReservedOne::<Bits<N>>::default());
        let z2 = serde_json::from_str::<ReservedZero<Bits<N>>>(&serde_json::to_string(&z).unwrap()).map_err(|x| x.to_string())?;
        let o2 = serde_json::from_str::<ReservedOne<Bits<N>>>(&serde_json::to_string(&o).unwrap()).map_err(|x| x.to_string())?;
        Ok::<_, String>((z == z2, o == o2))
    });
    rep.trace();
    if r != Ok(Ok((true, true))) { rep.violation("reserved", "c29", format!("{N} bits"), "itself".into(), format!("{r:?}")); }
}

macro_rules! ints { ($($T:ident $s:literal : $($n:literal)*;)*) => { fn run_ints(rep: &mut Report, rich: bool) { $($( serial::<$T, $n>(stringify!($T), $s, rich, rep); )*)* } } }
macro_rules! bits { ($($n:literal)*) => { fn run_bits(rep: &mut Report) { $( reserved::<$n>(rep); )* } } }
/*LISTS*/
fn main() {
    init();
    let a: Vec<String> = std::env::args().collect();
    let mut rep = Report::default();
    run_ints(&mut rep, a[2] == "thorough");
    run_bits(&mut rep);
    helpers(&mut rep);
    rep.finish();
}
