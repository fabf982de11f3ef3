// Every operation of the library over small complete domains, one line of text each; the lines of every
// configuration are compared. Built without the harness so that nothing but the library's features differs.
/*HEADER*/
use packed_struct::prelude::*;
use packed_struct::prelude::packed_bits::*;
use packed_struct::types::bits::ByteArray;
use packed_struct::{PackedStruct, PackedStructInfo, PackedStructSlice, PackingError, PrimitiveEnum};
use std::fmt::{Debug, Display};

static OUT: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
#[inline(never)]
fn line<R: Debug>(k: String, f: impl FnOnce() -> R + std::panic::UnwindSafe) {
    let v = match std::panic::catch_unwind(f) { Ok(v) => format!("{v:?}"), Err(e) => format!("panic {:?}", e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))) };
    let mut o = OUT.lock().unwrap();
    o.push_str(&k.replace('\n', " ")); o.push('\t'); o.push_str(&v); o.push('\n');
}

trait Native: Copy + Debug + 'static { fn all() -> Vec<Self>; }
macro_rules! native { ($($t:ident)*) => { $( impl Native for $t { fn all() -> Vec<$t> {
    let mut r: Vec<$t> = vec![0, 1, 2, <$t>::MAX, <$t>::MIN, <$t>::MAX - 1, <$t>::MIN + 1, 0xA5A5_A5A5_A5A5_A5A5u64 as $t, 0x0123_4567_89AB_CDEFu64 as $t];
    for i in 0..<$t>::BITS { r.extend([(1 as $t) << i, !((1 as $t) << i), ((1 as $t) << i).wrapping_sub(1), ((1 as $t) << i).wrapping_add(1)]); }
    r } }
    fn $t() {
        for v in <$t>::all() { line(format!("native {} {v}", stringify!($t)), || { let m = IntegerAsBytes::to_msb_bytes(&v); let l = IntegerAsBytes::to_lsb_bytes(&v); (m, l, <$t as IntegerAsBytes>::from_msb_bytes(&l), <$t as IntegerAsBytes>::from_lsb_bytes(&m)) }); }
    } )* } }
native!(u8 i8 u16 i16 u32 i32 u64 i64);

#[inline(never)]
fn int<T: Native + Display + std::panic::RefUnwindSafe + Into<Integer<T, Bits<N>>>, const N: usize>(t: &str)
where Bits<N>: NumberOfBits, Integer<T, Bits<N>>: SizedInteger<T, Bits<N>> + Copy + Debug + Display + PartialEq + std::hash::Hash,
      MsbInteger<T, Bits<N>, Integer<T, Bits<N>>>: PackedStruct, LsbInteger<T, Bits<N>, Integer<T, Bits<N>>>: PackedStruct,
      <<Bits<N> as NumberOfBits>::Bytes as NumberOfBytes>::AsBytes: Debug
{
    line(format!("int {t} {N} info"), || (<MsbInteger<T, Bits<N>, Integer<T, Bits<N>>> as PackedStructInfo>::packed_bits(), <LsbInteger<T, Bits<N>, Integer<T, Bits<N>>> as PackedStructInfo>::packed_bits(), <Bits<N> as NumberOfBits>::byte_array_len()));
    for v in T::all() {
        line(format!("int {t} {N} {v:?}"), || {
            let i: Integer<T, Bits<N>> = v.into();
            let (m, l) = (i.to_msb_bytes().unwrap(), i.to_lsb_bytes().unwrap());
            let pm = i.as_packed_msb().pack().map(|x| x.as_bytes_slice().to_vec());
            let pl = i.as_packed_lsb().pack().map(|x| x.as_bytes_slice().to_vec());
            let r = (Integer::<T, Bits<N>>::from_msb_bytes(&l), Integer::<T, Bits<N>>::from_lsb_bytes(&m));
            let u = (
                i.as_packed_lsb().pack().and_then(|x| { let mut a = <<MsbInteger<T, Bits<N>, Integer<T, Bits<N>>> as PackedStruct>::ByteArray as ByteArray>::new(0); a.as_mut_bytes_slice().copy_from_slice(x.as_bytes_slice()); MsbInteger::<T, Bits<N>, Integer<T, Bits<N>>>::unpack(&a).map(|x| format!("{x}")) }),
                i.as_packed_msb().pack().and_then(|x| { let mut a = <<LsbInteger<T, Bits<N>, Integer<T, Bits<N>>> as PackedStruct>::ByteArray as ByteArray>::new(0); a.as_mut_bytes_slice().copy_from_slice(x.as_bytes_slice()); LsbInteger::<T, Bits<N>, Integer<T, Bits<N>>>::unpack(&a).map(|x| format!("{x}")) }));
            let texts = { let (m, l) = (i.as_packed_msb(), i.as_packed_lsb()); format!("{i} {i:?} {m} {m:?} {l} {l:?}") };
            (i.to_primitive(), texts, digest_hash(&i), i == v.into(), m, l, pm, pl, r, u)
        });
    }
}

#[inline(never)]
fn width<const N: usize>() where Bits<N>: NumberOfBits {
    line(format!("w:{N}"), || {
        let z = ReservedZero::<Bits<N>>::default().pack().map(|x| x.as_bytes_slice().to_vec());
        let o = ReservedOne::<Bits<N>>::default().pack().map(|x| x.as_bytes_slice().to_vec());
        (<Bits<N> as NumberOfBits>::number_of_bits(), <<Bits<N> as NumberOfBits>::Bytes as NumberOfBytes>::number_of_bytes(), <Bits<N> as NumberOfBits>::byte_array_len(), <ReservedOne<Bits<N>> as PackedStructInfo>::packed_bits(), z, o,
            { let (z, o) = (ReservedZero::<Bits<N>>::default(), ReservedOne::<Bits<N>>::default()); (format!("{z} {z:?} {o} {o:?}"), z == z.clone(), o == o.clone(), core::mem::size_of_val(&z)) },
            format!("{:?} {:?} {:?}", Bits::<N>, <Bits<N> as NumberOfBits>::Bytes::default(), BitOne == BitOne))
    });
}

#[inline(never)]
fn slices<T: PackedStructSlice + Debug + std::panic::RefUnwindSafe>(name: &str, v: &[T], max: usize) {
    line(format!("size {name}"), || T::packed_bytes_size(None));
    for x in v {
        line(format!("size {name} {x:?}"), || T::packed_bytes_size(Some(x)));
        for n in 0..=max { line(format!("pack {name} {x:?} into {n}"), || { let mut b = vec![0x5A; n]; (x.pack_to_slice(&mut b), b) }); }
    }
    for n in 0..=max { for p in 0..4u8 {
        let b: Vec<u8> = (0..n).map(|i| match p { 0 => 0, 1 => 0xFF, 2 => 1, _ => (i as u8).wrapping_mul(0x35) ^ 7 }).collect();
        line(format!("unpack {name} from {b:?}"), || T::unpack_from_slice(&b));
    } }
}

#[derive(PackedStruct, Debug, Clone, PartialEq)]
#[packed_struct(bit_numbering = "msb0", endian = "lsb")]
struct In { a: Integer<u16, packed_bits::Bits::<11>>, b: bool, #[packed_field(size_bits = "4", ty = "enum")] e: EnumCatchAll<En> }
#[derive(PackedStruct, Debug, Clone, PartialEq)]
#[packed_struct(bit_numbering = "lsb0", size_bytes = "8", endian = "msb")]
struct Out { #[packed_field(bits = "63:48")] i: In, #[packed_field(bits = "45:36")] n: [Integer<u8, packed_bits::Bits::<5>>; 2], #[packed_field(bits = "34:15", endian = "lsb")] s: Integer<i32, packed_bits::Bits::<20>>, #[packed_field(bits = "2:0", ty = "enum")] e: En, #[packed_field(bits = "7")] k: bool }
#[derive(PrimitiveEnum_u8, Debug, Clone, Copy, PartialEq)]
enum En { Zero, Two = 2, Three, LastOne = 7 }
#[derive(PrimitiveEnum, Debug, Clone, Copy, PartialEq)]
enum Implicit { Neg = -3, Minus, Big = 200, Bigger = 40000 }
#[derive(PrimitiveEnum_i16, Debug, Clone, Copy, PartialEq)]
enum Signed { A = -300, B, C = 0, d_lower = 0x100 }

fn enums() {
    for v in 0..=255u8 { line(format!("En {v}"), || (En::from_primitive(v), EnumCatchAll::<En>::from_primitive(v), EnumCatchAll::<En>::from_primitive(v).map(|x| x.to_primitive()), EnumCatchAll::<En>::from_primitive(v) == EnumCatchAll::<En>::from_primitive(v & 3))); }
    for v in -400i16..400 { line(format!("Signed {v}"), || Signed::from_primitive(v)); }
    for v in [-3i64, -2, -1, 0, 200, 201, 40000, 40001, -40000] { line(format!("Implicit {v}"), || <Implicit as PrimitiveEnum>::Primitive::try_from(v).ok().map(|x| (Implicit::from_primitive(x), std::mem::size_of_val(&x)))); }
    for n in ["Zero", "zero", "ZERO", "Two", "two", "LastOne", "lastone", "d_lower", "A", "a", "Big", "", "Zero "] {
        line(format!("name {n}"), || (En::from_str(n), En::from_str_lower(n), Signed::from_str(n), Signed::from_str_lower(n), Implicit::from_str(n), Implicit::from_str_lower(n), EnumCatchAll::<En>::from_str(n), EnumCatchAll::<En>::from_str_lower(n)));
    }
    line("variants".into(), || (En::all_variants().to_vec(), Signed::all_variants().to_vec(), Implicit::all_variants().to_vec()));
    line("display".into(), || (En::all_variants().iter().map(|v| v.to_display_str().to_string()).collect::<Vec<_>>(), Signed::all_variants().iter().map(|v| v.to_display_str().to_string()).collect::<Vec<_>>()));
}

fn errors() {
    use PackingError::*;
    for e in [InvalidValue, BitsError, BufferTooSmall, NotImplemented, InstanceRequiredForSize, MoreThanOneDynamicType, BufferSizeMismatch { expected: 3, actual: 5 }, BufferModMismatch { actual_size: 7, modulo_required: 2 }, SliceIndexingError { slice_len: 9 }, InternalError] {
        line(format!("error {e:?}"), || (e.to_string(), e == e, e == InvalidValue, std::fmt::Error::from(e), core::mem::size_of_val(&e)));
    }
}

/// what a value feeds to a hasher
fn digest_hash<T: std::hash::Hash>(t: &T) -> Vec<u8> {
    struct H(Vec<u8>);
    impl std::hash::Hasher for H { fn write(&mut self, b: &[u8]) { self.0.extend(b); self.0.push(0xFE); } fn finish(&self) -> u64 { 0 } }
    let mut h = H(vec![]);
    t.hash(&mut h);
    h.0
}
fn digest(b: &[u8]) -> (usize, u64) { (b.len(), b.iter().fold(0xcbf2_9ce4_8422_2325, |h, x| (h ^ *x as u64).wrapping_mul(0x0000_0100_0000_01b3))) }

/// structures of many bytes
#[derive(PackedStruct, Debug, Clone, PartialEq)]
#[packed_struct(bit_numbering = "msb0", endian = "lsb")]
struct Big { #[packed_field(bits = "0:2")] a: u8, #[packed_field(bits = "3:18")] n: i16, #[packed_field(bits = "19:8018")] raw: Bytes1000, #[packed_field(bits = "8020:10519", element_size_bits = "5")] xs: [Integer<i8, packed_bits::Bits::<5>>; 500], #[packed_field(bits = "10527:10543", endian = "msb")] z: Integer<i32, packed_bits::Bits::<17>> }
type Bytes1000 = [u8; 1000];
#[derive(PackedStruct, Debug, Clone, PartialEq)]
#[packed_struct(bit_numbering = "lsb0", size_bytes = "2000", endian = "msb")]
struct Low { #[packed_field(bits = "15999:15990")] a: Integer<u16, packed_bits::Bits::<10>>, #[packed_field(bits = "9000:8991", endian = "lsb")] b: Integer<i16, packed_bits::Bits::<10>>, #[packed_field(bits = "8003:3")] raw: Raw8001, #[packed_field(bits = "1")] c: bool }
type Raw8001 = [u8; 1001];
fn big() -> Big { Big { a: 5, n: -12345, raw: std::array::from_fn(|i| (i * 7) as u8), xs: std::array::from_fn(|i| ((i % 32) as i8 - 16).into()), z: (-54321).into() } }
fn low() -> Low { Low { a: 777.into(), b: (-300).into(), raw: std::array::from_fn(|i| (i * 13 + 1) as u8), c: true } }
fn large() {
    line("Big".into(), || (big().pack().map(|x| digest(&x)), Big::unpack(&big().pack().unwrap()).map(|x| x == big()), Big::packed_bits(), Big::packed_bytes_size(None), Big::unpack_from_slice(&[0xEE; 1318]).map(|x| x.pack().map(|y| digest(&y))), Big::unpack_from_slice(&[0; 1317]).map(|_| ())));
    line("Low".into(), || (low().pack().map(|x| digest(&x)), Low::unpack(&low().pack().unwrap()).map(|x| x == low()), Low::packed_bits(), Low::packed_bytes_size(None), Low::unpack_from_slice(&[0x77; 2000]).map(|x| x.pack().map(|y| digest(&y)))));
    line("[u8; 70000]".into(), || { let a: [u8; 70000] = std::array::from_fn(|i| (i / 3) as u8); let mut b = vec![9; 70000]; (a.pack_to_slice(&mut b), digest(&b), <[u8; 70000]>::unpack_from_slice(&b).map(|x| x == a)) });
    line("rotate".into(), || [0usize, 1, 7, 1023, 1024, 2047].map(|k| { let mut a: [u8; 2048] = std::array::from_fn(|i| (i % 251) as u8); ByteArray::rotate_right(&mut a, k); digest(&a) }));
}

/// a user's own part of any size
#[derive(Debug, Clone, PartialEq)]
struct Own(Vec<u8>);
impl PackedStructSlice for Own {
    fn pack_to_slice(&self, out: &mut [u8]) -> Result<(), PackingError> { if out.len() != self.0.len() { return Err(PackingError::BufferTooSmall); } out.copy_from_slice(&self.0); Ok(()) }
    fn unpack_from_slice(s: &[u8]) -> Result<Self, PackingError> { if s.first() == Some(&0xFF) { return Err(PackingError::BitsError); } Ok(Own(s.to_vec())) }
    fn packed_bytes_size(o: Option<&Self>) -> Result<usize, PackingError> { o.map(|x| x.0.len()).ok_or(PackingError::InstanceRequiredForSize) }
}

fn inn(k: u8) -> In { In { a: (k as u16 * 97).into(), b: k & 1 == 1, e: EnumCatchAll::from_primitive(k & 15).unwrap() } }
fn outer(k: u8) -> Out { Out { i: inn(k), n: [k.into(), (k ^ 21).into()], s: (k as i32 * -4001).into(), e: [En::Zero, En::Two, En::Three, En::LastOne][k as usize & 3], k: k & 2 == 2 } }

/*ALLOC*/

fn all() {
    u8(); i8(); u16(); i16(); u32(); i32(); u64(); i64();
    /*INTS*/
    /*WIDTHS*/
    enums();
    errors();
    large();
    slices("u8", &[0u8, 1, 255], 3);
    slices("i8", &[0i8, 1, -128], 3);
    slices("bool", &[false, true], 3);
    slices("()", &[()], 2);
    slices("[u8; 5]", &[[1u8, 2, 3, 4, 5]], 8);
    slices("In", &[inn(0), inn(7), inn(255)], 4);
    slices("Out", &[outer(0), outer(9), outer(254), outer(131)], 10);
    for k in 0..=255u8 { line(format!("outer {k}"), || outer(k).pack()); }
    for k in 0..=255u8 { for p in 0..8usize { for bg in [0u8, 0xFF, 0x11] { let mut b = [bg; 8]; b[p] = k; line(format!("unpack outer {b:?}"), || Out::unpack(&b)); } } }
    slices("(u8,)", &[(3u8,)], 3);
    slices("(u8, In)", &[(3u8, inn(3))], 6);
    slices("(Own, u8)", &[(Own(vec![]), 4u8), (Own(vec![1, 2, 3]), 4)], 7);
    slices("(u8, Own, In)", &[(4u8, Own(vec![9, 8]), inn(1))], 8);
    slices("(Own, Own)", &[(Own(vec![1]), Own(vec![2, 3]))], 4);
    slices("(u8, (Own, u8), bool)", &[(4u8, (Own(vec![9, 8]), 3u8), true)], 8);
    slices("10", &[(1u8, 2u8, true, Own(vec![7]), (), 5i8, [1u8; 2], 3u8, inn(5), 9u8)], 14);
    /*ALLOC_ALL*/
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    all();
    std::fs::write(std::env::args().nth(1).unwrap(), &*OUT.lock().unwrap()).unwrap();
}
