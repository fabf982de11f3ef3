// Histories, re-entrant calls and interleavings of the real operations. Every operation's result is compared
// with its result as the first thing a fresh process does. Fresh processes and branching are forks: the state
// of the process, whatever it may hold, is part of the explored state. args: mode tier worker workers
use mc::report::{Report, OPS};
use packed_struct::prelude::*;
use packed_struct::prelude::packed_bits::*;
use packed_struct::types::bits::ByteArray;
use packed_struct::debug_fmt::DebugBinaryByteSlice;
use packed_struct::{PackedStruct, PackedStructInfo, PackedStructSlice, PackingError, PrimitiveEnum};
use std::cell::Cell;
use std::fmt::Debug;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Condvar, Mutex};
use std::time::Duration;

type R<T> = Result<T, PackingError>;

// ---------------------------------------------------------------- call-backs
/// What happens when user code is called in the middle of an operation.
static HOOK: AtomicUsize = AtomicUsize::new(0);
fn point() {
    let h = HOOK.load(SeqCst);
    if h != 0 { let f: fn() = unsafe { std::mem::transmute(h) }; f() }
}
fn set_hook(f: Option<fn()>) { HOOK.store(f.map(|f| f as usize).unwrap_or(0), SeqCst) }

/// A user's packable type: every call into it is a scheduling point. 0xEE does not pack, 0xDD panics.
#[derive(Clone, Copy, PartialEq)]
struct Probe(u8);
impl PackedStruct for Probe {
    type ByteArray = [u8; 1];
    fn pack(&self) -> R<[u8; 1]> { point(); if self.0 == 0xDD { panic!("packing") } if self.0 == 0xEE { Err(PackingError::BitsError) } else { Ok([self.0]) } }
    fn unpack(s: &[u8; 1]) -> R<Self> { point(); if s[0] == 0xDD { panic!("unpacking") } if s[0] == 0xEE { Err(PackingError::BufferTooSmall) } else { Ok(Probe(s[0])) } }
}
impl PackedStructInfo for Probe { fn packed_bits() -> usize { point(); 8 } }
impl Debug for Probe { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { point(); if self.0 == 0xCC { panic!("showing") } write!(f, "p{}", self.0) } }

/// A user's writer: every piece of text is a scheduling point; it refuses the `fail`th piece, or panics there.
struct Pieces { text: String, n: usize, fail: usize, panics: bool }
impl Pieces { fn new(fail: usize, panics: bool) -> Self { Pieces { text: String::new(), n: 0, fail, panics } } }
impl std::fmt::Write for Pieces {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        point();
        if self.n == self.fail { if self.panics { panic!("writing") } return Err(std::fmt::Error); }
        self.n += 1;
        self.text.push_str(s);
        Ok(())
    }
}

/// A user's dynamic part.
#[derive(Clone, PartialEq)]
struct Own(Vec<u8>);
impl PackedStructSlice for Own {
    fn pack_to_slice(&self, out: &mut [u8]) -> R<()> { point(); if out.len() != self.0.len() { return Err(PackingError::BufferTooSmall); } out.copy_from_slice(&self.0); point(); Ok(()) }
    fn unpack_from_slice(s: &[u8]) -> R<Self> { point(); if s.first() == Some(&0xFF) { return Err(PackingError::BitsError); } Ok(Own(s.to_vec())) }
    fn packed_bytes_size(o: Option<&Self>) -> R<usize> { point(); if let Some(x) = o { if x.0.first() == Some(&0xDD) { panic!("sizing") } } o.map(|x| x.0.len()).ok_or(PackingError::InstanceRequiredForSize) }
}
impl Debug for Own { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { point(); write!(f, "o{:?}", self.0) } }

// ---------------------------------------------------------------- types
#[derive(PackedStruct, Debug, Clone, PartialEq)]
#[packed_struct(bit_numbering = "msb0", endian = "lsb")]
struct In { a: Integer<u16, packed_bits::Bits::<11>>, b: bool, #[packed_field(size_bits = "4", ty = "enum")] e: EnumCatchAll<En> }
#[derive(PackedStruct, Debug, Clone, PartialEq)]
#[packed_struct(bit_numbering = "lsb0", size_bytes = "8", endian = "msb")]
struct Out { #[packed_field(bits = "63:48")] i: In, #[packed_field(bits = "45:36")] n: [Integer<u8, packed_bits::Bits::<5>>; 2], #[packed_field(bits = "34:15", endian = "lsb")] s: Integer<i32, packed_bits::Bits::<20>>, #[packed_field(bits = "2:0", ty = "enum")] e: En, #[packed_field(bits = "7")] k: bool }
#[derive(PackedStruct, Debug, Clone, PartialEq)]
#[packed_struct(endian = "msb")]
struct Nums { a: u16, b: i32, #[packed_field(endian = "lsb")] c: u64, d: [i16; 2], r: ReservedOne<packed_bits::Bits::<8>> }
#[derive(PackedStruct, Debug, Clone, PartialEq)]
#[packed_struct(bit_numbering = "msb0")]
struct Held { #[packed_field(bits = "0:7")] p: Probe, #[packed_field(bits = "12:35")] q: [Probe; 3], #[packed_field(bits = "8:11")] n: u8 }
#[derive(PackedStruct, Debug, Clone, PartialEq)]
struct Nested { #[packed_field(size_bytes = "5")] h: Held, #[packed_field(size_bytes = "1")] p: Probe }
#[derive(PrimitiveEnum_u8, Debug, Clone, Copy, PartialEq)]
enum En { Zero, Two = 2, Three, LastOne = 7 }
#[derive(PrimitiveEnum_i16, Debug, Clone, Copy, PartialEq)]
enum Signed { A = -300, B, C = 0, DLower = 0x100 }
/// more fields, longer names, wider columns, longer arrays than the others have
#[derive(PackedStruct, Debug, Clone, PartialEq)]
#[packed_struct(bit_numbering = "msb0", endian = "msb")]
struct Many { #[packed_field(bits = "0:7")] a: u8, b: u8, c: bool, d: i8, e: u16, f: u8, g: u8, h: u8, i: u32, j: u8, k: u8, l: u8 }
#[derive(PackedStruct, Debug, Clone, PartialEq)]
#[packed_struct(bit_numbering = "msb0", endian = "lsb")]
struct ManyLong { #[packed_field(bits = "0:7")] a_rather_long_name_for_a_field: u8, b: Integer<u8, packed_bits::Bits::<3>>, c: bool, #[packed_field(bits = "12:19")] d: u8, e: Integer<u64, packed_bits::Bits::<44>>, f: u8, g: u8, another_field_with_a_long_name: u16, h: u8, i: u8, j: u8 }
#[derive(PackedStruct, Debug, Clone, PartialEq)]
#[packed_struct(bit_numbering = "msb0")]
struct Row { #[packed_field(bits = "0:119")] items: [Integer<u8, packed_bits::Bits::<6>>; 20], last: Integer<u8, packed_bits::Bits::<6>> }
#[derive(PackedStruct, Debug, Clone, PartialEq)]
#[packed_struct(bit_numbering = "msb0")]
struct Large { #[packed_field(bits = "0:7")] first: u8, body: [u8; 1100], #[packed_field(bits = "8808:8815")] last: bool }
#[derive(PrimitiveEnum_u8, Debug, Clone, Copy, PartialEq)]
enum Lots { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20 = 40, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, TheVeryLastOfThem = 255 }

fn many(k: u8) -> Many { Many { a: k, b: 2, c: k & 1 == 1, d: -3, e: 0xABCD, f: !k, g: 7, h: 8, i: 0x1234_5678, j: 10, k: k ^ 9, l: 12 } }
fn many_long(k: u8) -> ManyLong { ManyLong { a_rather_long_name_for_a_field: k, b: (k & 7).into(), c: true, d: !k, e: (k as u64 * 0x0102_0304_05).into(), f: 1, g: 2, another_field_with_a_long_name: 0x0FF0, h: k, i: 4, j: 5 } }
fn row(k: u8) -> Row { Row { items: std::array::from_fn(|i| (i as u8 ^ k).into()), last: k.into() } }
fn large(k: u8) -> Large { Large { first: k, body: std::array::from_fn(|i| (i as u8).wrapping_mul(k)), last: true } }
fn inn(k: u8) -> In { In { a: (k as u16 * 97).into(), b: k & 1 == 1, e: EnumCatchAll::from_primitive(k & 15).unwrap() } }
fn outer(k: u8) -> Out { Out { i: inn(k), n: [k.into(), (k ^ 21).into()], s: (k as i32 * -4001).into(), e: [En::Zero, En::Two, En::Three, En::LastOne][k as usize & 3], k: k & 2 == 2 } }
fn nums(k: u8) -> Nums { let k = k as u64 + 1; Nums { a: (k * 257) as u16, b: (k * 70_000) as i32 * -3, c: k * 0x0123_4567_89AB, d: [k as i16 * -7, (k as i16).wrapping_mul(300)], r: Default::default() } }
fn held(k: u8) -> Held { Held { p: Probe(k), q: [Probe(k ^ 1), Probe(k ^ 0x80), Probe(k ^ 0x33)], n: k & 15 } }
fn nested(k: u8) -> Nested { Nested { h: held(k), p: Probe(!k) } }

// ---------------------------------------------------------------- operations
type Op = (String, Box<dyn Fn() -> String + Sync + Send>);
/// the result and the inputs as the operation left them
fn fin<X: Debug, Y: Debug>(r: X, input: Y) -> String { format!("{r:?} | {input:?}") }

/// The operation proper, without the preparation of its input and the rendering of its result: what is stepped through.
#[inline(never)]
fn win<T>(f: impl FnOnce() -> T) -> T {
    if !step::ARMED.load(SeqCst) { return f(); }
    step::ON.store(true, SeqCst);
    unsafe { std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") };
    let r = f();
    step::ON.store(false, SeqCst);
    unsafe { std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq") };
    r
}

fn ops() -> Vec<Op> {
    let mut o: Vec<Op> = vec![];
    // the sources of the unpacking operations are constants, so that building the table runs nothing
    macro_rules! op { ($n:expr, $f:expr) => { o.push(($n.into(), Box::new($f))) } }
    op!("In.pack 1", || { let v = inn(1); let r = win(|| v.pack()); fin(r, v) });
    op!("In.pack 254", || { let v = inn(254); let r = win(|| v.pack()); fin(r, v) });
    op!("In.unpack a", || { let s = [0x61, 0x0B]; let r = win(|| In::unpack(&s)); fin(r, s) });
    op!("In.unpack b", || { let s = [0xFF, 0xE2]; let r = win(|| In::unpack(&s)); fin(r, s) });
    op!("Out.pack 9", || { let v = outer(9); let r = win(|| v.pack()); fin(r, v) });
    op!("Out.pack 131", || { let v = outer(131); let r = win(|| v.pack()); fin(r, v) });
    op!("Out.unpack ok", || { let s = [0x61, 0x0B, 0x2A, 0xC3, 0x51, 0x99, 0x80, 0x83]; let r = win(|| Out::unpack(&s)); fin(r, s) });
    op!("Out.unpack invalid", || { let s = [0x61, 0x0B, 0x2A, 0xC3, 0x51, 0x99, 0x80, 0x05]; let r = win(|| Out::unpack(&s)); fin(r, s) });
    op!("Nums.pack 3", || { let v = nums(3); let r = win(|| v.pack()); fin(r, v) });
    op!("Nums.pack 200", || { let v = nums(200); let r = win(|| v.pack()); fin(r, v) });
    op!("Nums.unpack", || { let s: [u8; 19] = std::array::from_fn(|i| (i * 37 + 3) as u8); let r = win(|| Nums::unpack(&s)); fin(r, s) });
    op!("Out.pack_to_slice", || { let v = outer(77); let mut b = [0x5A; 8]; let r = win(|| v.pack_to_slice(&mut b)); fin((r, b), v) });
    op!("Out.pack_to_slice short", || { let v = outer(78); let mut b = [0x5A; 7]; let r = win(|| v.pack_to_slice(&mut b)); fin((r, b), v) });
    op!("Out.unpack_from_slice long", || { let s = [1u8; 9]; let r = win(|| Out::unpack_from_slice(&s)); fin(r, s) });
    op!("sizes", || fin(win(|| (Out::packed_bytes_size(None), In::packed_bits(), Nums::packed_bits(), <Vec<In>>::packed_bytes_size(None), <(u8, Vec<u8>)>::packed_bytes_size(None), <(u8, In)>::packed_bytes_size(None))), ()));
    op!("Vec<In>.pack", || { let v = vec![inn(3), inn(99), inn(180)]; let r = win(|| v.pack_to_vec()); fin(r, v) });
    op!("Vec<In>.pack empty", || { let v: Vec<In> = vec![]; let r = win(|| v.pack_to_vec()); fin(r, v) });
    op!("Vec<In>.unpack", || { let s = [1u8, 2, 3, 4]; let r = win(|| <Vec<In>>::unpack_from_slice(&s)); fin(r, s) });
    op!("Vec<In>.unpack odd", || { let s = [1u8, 2, 3]; let r = win(|| <Vec<In>>::unpack_from_slice(&s)); fin(r, s) });
    op!("tuple.pack", || { let v = (7u8, vec![inn(5), inn(6)], true); let r = win(|| v.pack_to_vec()); fin(r, v) });
    op!("tuple.pack other", || { let v = (9u8, vec![inn(200)], false); let r = win(|| v.pack_to_vec()); fin(r, v) });
    op!("tuple.unpack", || { let s = [7u8, 1, 2, 3, 4, 1]; let r = win(|| <(u8, Vec<In>, bool)>::unpack_from_slice(&s)); fin(r, s) });
    op!("tuple.unpack bad bool", || { let s = [7u8, 1, 2, 3, 4, 9]; let r = win(|| <(u8, Vec<In>, bool)>::unpack_from_slice(&s)); fin(r, s) });
    op!("tuple.unpack two", || { let s = [7u8, 1, 2, 3]; let r = win(|| <(Vec<u8>, Vec<In>)>::unpack_from_slice(&s)); fin(r, s) });
    op!("Integer u16/11", || { fin(win(|| { let i: Integer<u16, Bits<11>> = 0xFEDC.into(); (*i, i.to_msb_bytes(), i.to_lsb_bytes()) }), ()) });
    op!("Integer u16/11 other", || { fin(win(|| { let i: Integer<u16, Bits<11>> = 0x0123.into(); (*i, i.to_msb_bytes(), i.to_lsb_bytes()) }), ()) });
    op!("Integer i32/20", || { fin(win(|| { let i: Integer<i32, Bits<20>> = (-77_000).into(); (*i, i.to_primitive(), Integer::<i32, Bits<20>>::from_msb_bytes(&[0xFF, 0x12, 0x34]), Integer::<i32, Bits<20>>::from_lsb_bytes(&[0xFF, 0x12, 0x34])) }), ()) });
    op!("Msb pack", || { let i: Integer<u32, Bits<21>> = 0x1A_BCDE.into(); fin(win(|| (i.as_packed_msb().pack(), i.as_packed_lsb().pack())), ()) });
    op!("Msb unpack", || { let s = [0x1F, 0x34, 0x56]; fin(win(|| (MsbInteger::<u32, Bits<21>, Integer<u32, Bits<21>>>::unpack(&s).map(|x| **x), LsbInteger::<u32, Bits<21>, Integer<u32, Bits<21>>>::unpack(&s).map(|x| **x))), s) });
    op!("native bytes", || { let (a, b): (u64, i16) = (0x0123_4567_89AB_CDEF, -2); fin(win(|| (IntegerAsBytes::to_msb_bytes(&a), IntegerAsBytes::to_lsb_bytes(&a), IntegerAsBytes::to_lsb_bytes(&b))), (a, b)) });
    op!("reserved", || { let z = ReservedZero::<Bits<12>>::default(); let n = ReservedOne::<Bits<12>>::default(); fin(win(|| (z.pack(), n.pack(), ReservedOne::<Bits<12>>::unpack(&[0x55, 0xAA]))), ()) });
    op!("bool", || fin(win(|| (bool::unpack(&[1]), bool::unpack(&[2]), true.pack(), false.pack())), ()));
    op!("enum hit", || fin(win(|| (En::from_primitive(3), En::LastOne.to_primitive(), Signed::from_primitive(-299))), ()));
    op!("enum miss", || fin(win(|| (En::from_primitive(4), Signed::from_primitive(1))), ()));
    op!("enum name", || fin(win(|| (En::from_str("LastOne"), En::from_str("lastone"), En::from_str_lower("lastone"), En::from_str_lower("LastOne"))), ()));
    op!("enum text", || fin(win(|| (En::Two.to_display_str(), Signed::DLower.to_display_str(), En::all_variants(), Signed::all_variants())), ()));
    op!("catch-all", || { let (a, b) = (EnumCatchAll::<En>::from_primitive(9), EnumCatchAll::<En>::from_primitive(2)); fin(win(|| (a.map(|x| (x, x.to_primitive(), x.to_display_str())), b.map(|x| (x, x.to_primitive())), a == b)), ()) });
    op!("rotate", || { let mut a = [1u8, 2, 3, 4, 5, 6, 7]; let b = win(|| { ByteArray::rotate_right(&mut a, 3); <[u8; 3] as ByteArray>::new(9) }); fin((a, b), ()) });
    op!("show Out", || { let v = outer(9); let r = win(|| v.to_string()); fin(r, v) });
    op!("show Nums", || { let v = nums(200); let r = win(|| v.to_string()); fin(r, v) });
    op!("binary", || { let s = [0xA5u8, 0x3C, 0x81]; let r = 3..18; fin(win(|| format!("{:b}", DebugBinaryByteSlice { bits: &r, slice: &s })), s) });
    op!("error text", || fin(win(|| (PackingError::BufferSizeMismatch { expected: 3, actual: 4 }.to_string(), PackingError::InvalidValue.to_string())), ()));
    // call-backs into user code
    op!("Held.pack 4", || { let v = held(4); let r = win(|| v.pack()); fin(r, v.n) });
    op!("Held.pack 250", || { let v = held(250); let r = win(|| v.pack()); fin(r, v.n) });
    op!("Held.pack fails", || { let mut v = held(4); v.q[1] = Probe(0xEE); let r = win(|| v.pack()); fin(r, v.n) });
    op!("Held.unpack", || { let s = [1u8, 0x2B, 0xC3, 0xD4, 0xE0]; let r = win(|| Held::unpack(&s)); fin(r.map(|x| (x.p.0, x.q.map(|y| y.0), x.n)), s) });
    op!("Held.unpack fails", || { let s = [1u8, 0x2E, 0xEF, 0xFF, 0xE0]; let r = win(|| Held::unpack(&s)); fin(r.map(|x| (x.p.0, x.q.map(|y| y.0), x.n)), s) });
    op!("Nested.pack", || { let v = nested(9); let r = win(|| v.pack()); fin(r, v.p.0) });
    op!("Nested.unpack", || { let s = [1u8, 0x2B, 0xC3, 0xD4, 0xE0, 0x77]; let r = win(|| Nested::unpack(&s)); fin(r.map(|x| (x.h.p.0, x.h.q.map(|y| y.0), x.h.n, x.p.0)), s) });
    op!("Vec<Probe>.pack", || { let v = vec![Probe(1), Probe(2), Probe(3)]; let r = win(|| v.pack_to_vec()); fin(r, v.len()) });
    op!("Vec<Probe>.pack fails", || { let v = vec![Probe(1), Probe(0xEE), Probe(3)]; let mut b = [9u8; 3]; let r = win(|| v.pack_to_slice(&mut b)); fin(r, v.len()) });
    op!("Vec<Probe>.unpack", || { let s = [5u8, 6, 7]; let r = win(|| <Vec<Probe>>::unpack_from_slice(&s)); fin(r.map(|x| x.iter().map(|p| p.0).collect::<Vec<_>>()), s) });
    op!("tuple Probe.pack", || { let v = (Probe(9), vec![Probe(8), Probe(7)], Probe(6)); let r = win(|| v.pack_to_vec()); fin(r, v.1.len()) });
    op!("tuple Probe.unpack", || { let s = [5u8, 6, 7, 8]; let r = win(|| <(Probe, Vec<Probe>, Probe)>::unpack_from_slice(&s)); fin(r.map(|x| (x.0.0, x.1.iter().map(|p| p.0).collect::<Vec<_>>(), x.2.0)), s) });
    op!("tuple Own.pack", || { let v = (3u8, Own(vec![1, 2]), Probe(4)); let r = win(|| v.pack_to_vec()); fin(r, v.0) });
    op!("tuple Own.unpack", || { let s = [5u8, 6, 7, 8]; let r = win(|| <(Probe, Own, u8)>::unpack_from_slice(&s)); fin(r.map(|x| (x.0.0, x.1.0, x.2)), s) });
    op!("show Held", || { let v = held(65); let r = win(|| v.to_string()); fin(r, v.n) });
    op!("show Held fails", || { let mut v = held(65); v.p = Probe(0xEE); let r = win(|| format!("{v}")); fin(r, v.n) });
    o
}
fn digest(b: &[u8]) -> (usize, u64) { (b.len(), mc::report::hash64(b)) }
/// Every public operation of the library on several types: what is shared between instances of generic code shows here.
/// Instances of the same operation stand side by side.
fn more(o: &mut Vec<Op>) {
    macro_rules! op { ($n:expr, $f:expr) => { o.push(($n.to_string(), Box::new($f))) } }
    macro_rules! packing {
        ($($t:ty, $v:expr, $s:expr;)*) => {
            $( op!(concat!(stringify!($t), " pack"), || { let v: $t = $v; let r = win(|| PackedStruct::pack(&v)); fin(r, format!("{v:?}")) }); )*
            $( op!(concat!(stringify!($t), " unpack"), || { let s = $s; let r = win(|| <$t as PackedStruct>::unpack(&s)); fin(r.map(|x| format!("{x:?}")), s) }); )*
            $( op!(concat!(stringify!($t), " bits"), || fin(win(|| <$t as PackedStructInfo>::packed_bits()), ())); )*
            $( op!(concat!(stringify!($t), " bytes"), || fin(win(|| (<$t as PackedStructSlice>::packed_bytes_size(None), <<$t as PackedStruct>::ByteArray as ByteArray>::len())), ())); )*
            $( op!(concat!(stringify!($t), " bytes of one"), || { let v: $t = $v; fin(win(|| <$t as PackedStructSlice>::packed_bytes_size(Some(&v))), ()) }); )*
            $( op!(concat!(stringify!($t), " slice"), || { let v: $t = $v; let mut b = $s; let r = win(|| v.pack_to_slice(&mut b)); fin((r, b), ()) }); )*
            $( op!(concat!(stringify!($t), " slice long"), || { let v: $t = $v; let mut b = [$s, $s].concat(); let r = win(|| v.pack_to_slice(&mut b)); fin((r, b), ()) }); )*
            $( op!(concat!(stringify!($t), " from slice"), || { let s = $s; let r = win(|| <$t>::unpack_from_slice(&s)); fin(r.map(|x| format!("{x:?}")), s) }); )*
            $( op!(concat!(stringify!($t), " from long slice"), || { let s = [$s, $s].concat(); let r = win(|| <$t>::unpack_from_slice(&s)); fin(r.map(|x| format!("{x:?}")), s) }); )*
            $( op!(concat!("Vec of ", stringify!($t)), || { let v: Vec<$t> = vec![$v, $v]; let r = win(|| v.pack_to_vec()); fin(r, ()) }); )*
            $( op!(concat!("Vec of ", stringify!($t), " from slice"), || { let s = [$s, $s, $s].concat(); let r = win(|| <Vec<$t>>::unpack_from_slice(&s)); fin(r.map(|x| format!("{x:?}")), s) }); )*
            $( op!(concat!("tuple of ", stringify!($t)), || { let v: ($t, u8, $t) = ($v, 5, $v); let r = win(|| v.pack_to_vec()); fin(r, ()) }); )*
            $( op!(concat!("tuple of ", stringify!($t), " from slice"), || { let mut s = $s.to_vec(); s.push(6); s.extend($s); let r = win(|| <($t, u8, Vec<$t>)>::unpack_from_slice(&s)); fin(r.map(|x| format!("{x:?}")), s) }); )*
        }
    }
    packing! {
        u8, 201, [7u8];
        i8, -3, [0x90u8];
        bool, true, [0u8];
        [u8; 1], [9], [0x44u8];
        [u8; 4], [1, 2, 3, 4], [9u8, 8, 7, 6];
        In, inn(77), [0x61u8, 0x0B];
        Nums, nums(6), [3u8; 19];
        Out, outer(9), [0x61u8, 0x0B, 0x2A, 0xC3, 0x51, 0x99, 0x80, 0x83];
        ReservedZero<Bits<3>>, Default::default(), [5u8];
        ReservedZero<Bits<11>>, Default::default(), [5u8, 0xFF];
        ReservedOne<Bits<3>>, Default::default(), [5u8];
        ReservedOne<Bits<11>>, Default::default(), [5u8, 0xFF];
        ReservedOne<Bits<40>>, Default::default(), [5u8, 0xFF, 0, 1, 2];
        MsbInteger<u16, Bits<9>, Integer<u16, Bits<9>>>, Integer::<u16, Bits<9>>::from(0x155).into(), [0xFEu8, 0x35];
        MsbInteger<u16, Bits<14>, Integer<u16, Bits<14>>>, Integer::<u16, Bits<14>>::from(0x2ABC).into(), [0xFEu8, 0x35];
        MsbInteger<i32, Bits<27>, Integer<i32, Bits<27>>>, Integer::<i32, Bits<27>>::from(-777_777).into(), [0xFEu8, 0x35, 1, 0x80];
        MsbInteger<u64, Bits<64>, Integer<u64, Bits<64>>>, Integer::<u64, Bits<64>>::from(0x0123_4567_89AB_CDEF).into(), [0xFEu8, 0x35, 1, 0x80, 9, 8, 7, 6];
        LsbInteger<u16, Bits<9>, Integer<u16, Bits<9>>>, Integer::<u16, Bits<9>>::from(0x155).into(), [0xFEu8, 0x35];
        LsbInteger<u16, Bits<14>, Integer<u16, Bits<14>>>, Integer::<u16, Bits<14>>::from(0x2ABC).into(), [0xFEu8, 0x35];
        LsbInteger<i32, Bits<27>, Integer<i32, Bits<27>>>, Integer::<i32, Bits<27>>::from(-777_777).into(), [0xFEu8, 0x35, 1, 0x80];
        LsbInteger<u64, Bits<64>, Integer<u64, Bits<64>>>, Integer::<u64, Bits<64>>::from(0x0123_4567_89AB_CDEF).into(), [0xFEu8, 0x35, 1, 0x80, 9, 8, 7, 6];
    }
    macro_rules! integers {
        ($($t:ty, $n:literal, $v:expr, $s:expr;)*) => {
            $( op!(concat!("from ", stringify!($t $n)), || { let v: $t = $v; fin(win(|| *<Integer<$t, Bits<$n>>>::from_primitive(v)), v) }); )*
            $( op!(concat!("mask ", stringify!($t $n)), || fin(win(|| <Integer<$t, Bits<$n>> as SizedInteger<$t, Bits<$n>>>::value_bit_mask()), ())); )*
            $( op!(concat!("to ", stringify!($t $n)), || { let i = <Integer<$t, Bits<$n>>>::from_primitive($v); fin(win(|| i.to_primitive()), ()) }); )*
            $( op!(concat!("msb ", stringify!($t $n)), || { let i = <Integer<$t, Bits<$n>>>::from_primitive($v); fin(win(|| i.to_msb_bytes()), ()) }); )*
            $( op!(concat!("lsb ", stringify!($t $n)), || { let i = <Integer<$t, Bits<$n>>>::from_primitive($v); fin(win(|| i.to_lsb_bytes()), ()) }); )*
            $( op!(concat!("from msb ", stringify!($t $n)), || { let s = $s; fin(win(|| <Integer<$t, Bits<$n>>>::from_msb_bytes(&s)).map(|x| *x), s) }); )*
            $( op!(concat!("from lsb ", stringify!($t $n)), || { let s = $s; fin(win(|| <Integer<$t, Bits<$n>>>::from_lsb_bytes(&s)).map(|x| *x), s) }); )*
            $( op!(concat!("text ", stringify!($t $n)), || { let i = <Integer<$t, Bits<$n>>>::from_primitive($v); fin(win(|| format!("{i} {i:?}")), ()) }); )*
            $( op!(concat!("native bytes ", stringify!($t $n)), || { let v: $t = $v; fin(win(|| (IntegerAsBytes::to_msb_bytes(&v), IntegerAsBytes::to_lsb_bytes(&v))), ()) }); )*
            $( op!(concat!("width ", stringify!($n)), || fin(win(|| (<Bits<$n> as NumberOfBits>::number_of_bits(), <Bits<$n> as NumberOfBits>::byte_array_len())), ())); )*
        }
    }
    integers! {
        u8, 3, 0xFD, [0xF5u8];
        i8, 5, 0x1F, [0xF5u8];
        u16, 10, 0xABCD, [0xF5u8, 0x77];
        i16, 13, 0x1ABC, [0xF5u8, 0x77];
        u32, 17, 0xABCD_EF01, [0xF5u8, 0x77, 0x12];
        i32, 31, -5, [0xF5u8, 0x77, 0x12, 0x99];
        u64, 33, 0xABCD_EF01_2345_6789, [0xF5u8, 0x77, 0x12, 0x99, 1];
        i64, 63, i64::MIN, [0xF5u8, 0x77, 0x12, 0x99, 1, 2, 3, 4];
    }
    macro_rules! enums {
        ($($e:ident, $hit:expr, $miss:expr, $name:expr, $v:expr;)*) => {
            $( op!(concat!(stringify!($e), " from"), || fin(win(|| ($e::from_primitive($hit), $e::from_primitive($miss))), ())); )*
            $( op!(concat!(stringify!($e), " to"), || fin(win(|| $v.to_primitive()), ())); )*
            $( op!(concat!(stringify!($e), " parse"), || fin(win(|| ($e::from_str($name), $e::from_str("x"))), ())); )*
            $( op!(concat!(stringify!($e), " parse lower"), || fin(win(|| ($e::from_str_lower($name), $e::from_str_lower(&$name.to_lowercase()))), ())); )*
            $( op!(concat!(stringify!($e), " name"), || fin(win(|| $v.to_display_str()), ())); )*
            $( op!(concat!(stringify!($e), " all"), || fin(win(|| $e::all_variants()), ())); )*
            $( op!(concat!("any ", stringify!($e), " from"), || fin(win(|| (EnumCatchAll::<$e>::from_primitive($hit), EnumCatchAll::<$e>::from_primitive($miss))), ())); )*
            $( op!(concat!("any ", stringify!($e), " to"), || fin(win(|| (EnumCatchAll::<$e>::from($v).to_primitive(), EnumCatchAll::<$e>::from_primitive($miss).map(|x| x.to_primitive()))), ())); )*
            $( op!(concat!("any ", stringify!($e), " equal"), || fin(win(|| (EnumCatchAll::<$e>::from($v) == EnumCatchAll::CatchAll($hit), EnumCatchAll::<$e>::from($v) == EnumCatchAll::CatchAll($miss))), ())); )*
            $( op!(concat!("any ", stringify!($e), " name"), || fin(win(|| (EnumCatchAll::<$e>::from($v).to_display_str(), EnumCatchAll::<$e>::CatchAll($miss).to_display_str())), ())); )*
            $( op!(concat!("any ", stringify!($e), " parse"), || fin(win(|| (EnumCatchAll::<$e>::from_str($name), EnumCatchAll::<$e>::from_str_lower("q"))), ())); )*
        }
    }
    enums! {
        En, 2, 5, "LastOne", En::Three;
        Signed, -299, 1, "DLower", Signed::A;
    }
    macro_rules! arrays {
        ($($n:literal $k:literal)*) => {
            $( op!(concat!("array new ", stringify!($n)), || fin(win(|| (<[u8; $n] as ByteArray>::new($k).to_vec(), <[u8; $n] as ByteArray>::len())), ())); )*
            $( op!(concat!("array rotate ", stringify!($n)), || { let mut a: [u8; $n] = std::array::from_fn(|i| i as u8 + 1); win(|| ByteArray::rotate_right(&mut a, $k)); fin(a.to_vec(), ()) }); )*
            $( op!(concat!("array slices ", stringify!($n)), || { let mut a: [u8; $n] = std::array::from_fn(|i| i as u8 + 1); let r = win(|| (a.as_bytes_slice().to_vec(), { let m = a.as_mut_bytes_slice(); m[0] ^= 0x80; m.len() })); fin(r, a.to_vec()) }); )*
        }
    }
    arrays! { 2 1 5 3 9 0 }
    op!("show In", || { let v = inn(7); let r = win(|| v.to_string()); fin(r, v) });
    op!("show In without bits", || { let v = inn(7); let mut d = packed_struct::debug_fmt::PackedStructDisplay::new(&v); d.fields = false; d.raw_binary = false; fin(win(|| d.to_string()), ()) });
    op!("show Nums short", || { let v = nums(7); let mut d = packed_struct::debug_fmt::PackedStructDisplay::new(&v); d.header = false; d.raw_decimal = false; d.raw_hex = false; fin(win(|| d.to_string()), ()) });
    macro_rules! shows {
        ($($t:ident, $v:expr, $n:literal;)*) => {
            $( op!(concat!("show ", stringify!($t)), || { let v = $v; let r = win(|| v.to_string()); fin(r, v) }); )*
            $( op!(concat!("show fields of ", stringify!($t)), || { let v = $v; let mut d = packed_struct::debug_fmt::PackedStructDisplay::new(&v); d.header = false; d.raw_decimal = false; d.raw_hex = false; d.raw_binary = false; fin(win(|| d.to_string()), ()) }); )*
            $( op!(concat!("show header of ", stringify!($t)), || { let v = $v; let mut d = packed_struct::debug_fmt::PackedStructDisplay::new(&v); d.fields = false; d.raw_decimal = false; fin(win(|| d.to_string()), ()) }); )*
            $( op!(concat!(stringify!($t), " pack"), || { let v = $v; let r = win(|| v.pack()); fin(r, ()) }); )*
            $( op!(concat!(stringify!($t), " unpack"), || { let s = [0x2Fu8; $n]; let r = win(|| $t::unpack(&s)); fin(r, ()) }); )*
            $( op!(concat!(stringify!($t), " unpack zero"), || { let s = [0u8; $n]; let r = win(|| $t::unpack_from_slice(&s)); fin(r, ()) }); )*
        }
    }
    shows! {
        Many, many(7), 16;
        ManyLong, many_long(99), 15;
        Row, row(5), 16;
    }
    op!("Large pack", || { let v = large(77); let r = win(|| v.pack()); fin(r.map(|x| digest(&x)), ()) });
    op!("Large unpack", || { let s = [1u8; 1102]; let r = win(|| Large::unpack(&s)); fin(r.map(|x| (x.first, digest(&x.body), x.last)), ()) });
    op!("Large unpack zero", || { let s = [0u8; 1102]; let r = win(|| Large::unpack_from_slice(&s)); fin(r.map(|x| (x.first, digest(&x.body), x.last)), ()) });
    op!("long Vec pack", || { let v: Vec<u8> = (0..5000).map(|i| (i * 7) as u8).collect(); let r = win(|| v.pack_to_vec()); fin(r.map(|x| digest(&x)), ()) });
    op!("long Vec unpack", || { let v: Vec<u8> = (0..5000).map(|i| (i * 11) as u8).collect(); let r = win(|| <Vec<u8>>::unpack_from_slice(&v)); fin(r.map(|x| digest(&x)), ()) });
    op!("tuple of ten pack", || { let v = (1u8, 2i8, true, [4u8; 3], vec![inn(1); 9], inn(3), 7u8, false, (9u8, 10u8), [11u8; 2]); let r = win(|| v.pack_to_vec()); fin(r, ()) });
    op!("tuple of ten unpack", || { let s = [1u8; 40]; let r = win(|| <(u8, i8, bool, [u8; 3], Vec<In>, In, u8, bool, (u8, u8), [u8; 2])>::unpack_from_slice(&s)); fin(r, ()) });
    op!("Lots last", || fin(win(|| (Lots::from_primitive(255), Lots::from_str("TheVeryLastOfThem"), Lots::from_str_lower("theverylastofthem"), Lots::V33.to_display_str())), ()));
    op!("Lots middle", || fin(win(|| (Lots::from_primitive(41), Lots::from_str("V21"), Lots::from_str_lower("v21"), Lots::V21.to_display_str())), ()));
    op!("Lots none", || fin(win(|| (Lots::from_primitive(20), Lots::from_str("V34"), Lots::from_str_lower("V21"), Lots::all_variants().len())), ()));
    // user code that panics in the middle of an operation
    op!("Held.pack panics", || { let mut v = held(4); v.q[1] = Probe(0xDD); let r = win(|| v.pack()); fin(r, ()) });
    op!("Held.unpack panics", || { let r = win(|| Held::unpack(&[1, 0x20, 0x3D, 0xD4, 0x50]).map(|x| x.n)); fin(r, ()) });
    op!("Held.unpack panics last", || { let r = win(|| Held::unpack(&[1, 0x22, 0x33, 0x4D, 0xD0]).map(|x| x.n)); fin(r, ()) });
    op!("Nested.pack panics", || { let mut v = nested(4); v.h.p = Probe(0xDD); let r = win(|| v.pack_to_vec()); fin(r, ()) });
    op!("Vec<Probe>.pack panics", || { let v = vec![Probe(1), Probe(2), Probe(0xDD), Probe(3)]; let r = win(|| v.pack_to_vec()); fin(r, ()) });
    op!("Vec<Probe>.pack_to_slice panics", || { let v = vec![Probe(1), Probe(0xDD), Probe(3)]; let mut b = [7u8; 3]; let r = win(|| v.pack_to_slice(&mut b)); fin((r, b), ()) });
    op!("Vec<Probe>.unpack panics", || { let r = win(|| <Vec<Probe>>::unpack_from_slice(&[1, 2, 0xDD, 4]).map(|x| x.len())); fin(r, ()) });
    op!("Vec<Held>.unpack panics", || { let r = win(|| <Vec<Held>>::unpack_from_slice(&[1, 2, 3, 4, 5, 0xDD, 2, 3, 4, 5]).map(|x| x.len())); fin(r, ()) });
    op!("tuple.pack panics", || { let v = (Probe(1), vec![Probe(2)], Probe(0xDD)); let r = win(|| v.pack_to_vec()); fin(r, ()) });
    op!("tuple.unpack panics", || { let r = win(|| <(Probe, Vec<Probe>, Probe)>::unpack_from_slice(&[1, 2, 0xDD, 4]).map(|x| x.1.len())); fin(r, ()) });
    op!("tuple Own.size panics", || { let v = (3u8, Own(vec![0xDD, 2]), Probe(4)); let r = win(|| v.pack_to_vec()); fin(r, ()) });
    op!("show Held panics in packing", || { let mut v = held(65); v.p = Probe(0xDD); let r = win(|| v.to_string()); fin(r, ()) });
    op!("show Held panics in showing", || { let mut v = held(65); v.q[1] = Probe(0xCC); let r = win(|| v.to_string()); fin(r, ()) });
    // writers that call back, refuse or panic
    op!("write In", || { use std::fmt::Write; let v = inn(9); let mut w = Pieces::new(usize::MAX, false); let r = win(|| write!(w, "{v}")); fin((r, w.text), ()) });
    for n in [0, 3, 8, 25, 40, 70] {
        op!(format!("write In, refused at piece {n}"), move || { use std::fmt::Write; let v = inn(9); let mut w = Pieces::new(n, false); let r = win(|| write!(w, "{v}")); fin((r, w.text), ()) });
        op!(format!("write In, panic at piece {n}"), move || { use std::fmt::Write; let v = inn(9); let mut w = Pieces::new(n, true); let r = win(|| write!(w, "{v}")); fin((r, w.text), ()) });
    }
    op!("write bits", || { use std::fmt::Write; let b = [0xA5u8, 0x3C, 0x99]; let mut w = Pieces::new(usize::MAX, false); let r = win(|| write!(w, "{:b}", DebugBinaryByteSlice { bits: &(3..19), slice: &b })); fin((r, w.text), ()) });
    for e in [PackingError::BitsError, PackingError::BufferTooSmall, PackingError::InstanceRequiredForSize, PackingError::MoreThanOneDynamicType, PackingError::BufferModMismatch { actual_size: 7, modulo_required: 3 }, PackingError::SliceIndexingError { slice_len: 9 }] {
        op!(format!("text of {e:?}"), move || fin(win(|| e.to_string()), ()));
    }
}
const CALLBACK_FROM: &str = "Held.pack 4";

fn run(o: &Op) -> String {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (o.1)())) {
        Ok(s) => s,
        Err(e) => format!("panic {:?}", e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))),
    }
}

// ---------------------------------------------------------------- processes
#[repr(C)]
struct Shared { states: AtomicU64, transitions: AtomicU64, traces: AtomicU64, violations: AtomicU64, len: AtomicUsize, steps: AtomicU64, lock: AtomicBool, text: [u8; 1 << 20], slot: [u8; 1 << 16], slot_len: AtomicUsize }
static mut SHARED: *mut Shared = std::ptr::null_mut();
fn sh() -> &'static mut Shared { unsafe { &mut *SHARED } }
fn map_shared() {
    unsafe { SHARED = libc::mmap(std::ptr::null_mut(), std::mem::size_of::<Shared>(), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) as *mut Shared; assert!(SHARED as isize != -1) }
}
fn record(case: &str, input: &str, expected: &str, got: &str) {
    let s = sh();
    s.violations.fetch_add(1, SeqCst);
    let line = format!("{}\u{1}{}\u{1}{}\u{1}{}\u{2}", case, input, expected, got);
    let at = s.len.fetch_add(line.len(), SeqCst);
    if at + line.len() <= s.text.len() { s.text[at..at + line.len()].copy_from_slice(line.as_bytes()); }
}
/// Runs f in a child that is a copy of this process; the way it ended.
fn child(f: impl FnOnce()) -> i32 {
    unsafe {
        let p = libc::fork();
        assert!(p >= 0, "fork");
        if p == 0 { libc::alarm(20); f(); libc::_exit(0) }
        let mut st = 0;
        while libc::waitpid(p, &mut st, 0) < 0 {}
        st
    }
}
fn ended(st: i32) -> String {
    if libc::WIFSIGNALED(st) { if libc::WTERMSIG(st) == libc::SIGALRM { "no end within 20 s".into() } else { format!("killed by signal {}", libc::WTERMSIG(st)) } } else { format!("ended with {}", libc::WEXITSTATUS(st)) }
}
/// The results every operation has in a process that did nothing before.
fn baseline(o: &[Op]) -> Vec<String> {
    o.iter().map(|x| {
        let st = child(|| { let r = run(x); let s = sh(); let n = r.len().min(s.slot.len()); s.slot[..n].copy_from_slice(&r.as_bytes()[..n]); s.slot_len.store(n, SeqCst); });
        if st != 0 { record("alone", &x.0, "returns", &ended(st)); return String::new(); }
        String::from_utf8_lossy(&sh().slot[..sh().slot_len.load(SeqCst)]).into_owned()
    }).collect()
}

fn check(o: &[Op], base: &[String], i: usize, got: &str, how: impl FnOnce() -> String) {
    sh().traces.fetch_add(1, SeqCst);
    if got != base[i] { record(&o[i].0, &how(), &base[i], got); }
}

// ---------------------------------------------------------------- histories
fn names(o: &[Op], h: &[usize]) -> String { h.iter().map(|&i| &o[i].0[..]).collect::<Vec<_>>().join("; ") }

/// Every sequence of `depth` operations: a tree of processes. The last of the first two may also run on a thread of its own.
fn histories(o: &[Op], base: &[String], depth: usize, h: &mut Vec<usize>, mine: &dyn Fn(usize) -> bool, alphabet: &[usize]) {
    for &i in alphabet {
        if h.is_empty() && !mine(i) { continue; }
        for threaded in [false, true] {
            if threaded && (h.len() != 1 || (depth == 1 && h[0] != i)) { continue; }
            h.push(i);
            sh().states.fetch_add(1, SeqCst);
            let st = child(|| {
                sh().transitions.fetch_add(1, SeqCst);
                let r = if threaded { std::thread::scope(|s| s.spawn(|| run(&o[i])).join().unwrap()) } else { run(&o[i]) };
                check(o, base, i, &r, || format!("the last of: {}{}", names(o, h), if threaded { " (on another thread)" } else { "" }));
                unsafe { libc::alarm(0) };
                if depth > 1 && !threaded { histories(o, base, depth - 1, h, mine, alphabet); }
            });
            if st != 0 { record(&o[i].0, &format!("the last of: {}", names(o, h)), "returns", &ended(st)); }
            h.pop();
        }
    }
}

/// Each operation many times in one process, then every other one.
fn repeats(o: &[Op], base: &[String], n: usize, mine: &dyn Fn(usize) -> bool) {
    for i in 0..o.len() {
        if !mine(i) { continue; }
        let st = child(|| {
            unsafe { libc::alarm(120) };
            for k in 0..n {
                let r = run(&o[i]);
                sh().transitions.fetch_add(1, SeqCst);
                if r != base[i] { record(&o[i].0, &format!("call {} of {n} in a row", k + 1), &base[i], &r); return; }
            }
            sh().states.fetch_add(n as u64, SeqCst);
            sh().traces.fetch_add(n as u64, SeqCst);
            for j in 0..o.len() { let r = run(&o[j]); check(o, base, j, &r, || format!("after {n} calls of {}, in order", o[i].0)); }
        });
        if st != 0 { record(&o[i].0, &format!("{n} calls in a row"), "returns", &ended(st)); }
    }
}

// ---------------------------------------------------------------- re-entrant calls
thread_local! { static SEEN: Cell<usize> = const { Cell::new(0) }; static QUIET: Cell<bool> = const { Cell::new(false) }; }
static AT: AtomicUsize = AtomicUsize::new(0);
static WHAT: AtomicUsize = AtomicUsize::new(0);
static INNER: Mutex<String> = Mutex::new(String::new());
static TABLE: std::sync::OnceLock<Vec<Op>> = std::sync::OnceLock::new();
fn reenter() {
    if QUIET.get() { return; }
    let n = SEEN.get();
    SEEN.set(n + 1);
    if n == AT.load(SeqCst) {
        QUIET.set(true);
        let r = run(&TABLE.get().unwrap()[WHAT.load(SeqCst)]);
        *INNER.lock().unwrap() = r;
        QUIET.set(false);
    }
}
fn count_points(o: &Op) -> usize {
    let st = child(|| { AT.store(usize::MAX, SeqCst); set_hook(Some(reenter)); run(o); sh().steps.store(SEEN.get() as u64, SeqCst); });
    if st != 0 { 0 } else { sh().steps.load(SeqCst) as usize }
}
fn reentrant(o: &[Op], base: &[String], mine: &dyn Fn(usize) -> bool) {
    let from = o.iter().position(|x| x.0 == CALLBACK_FROM).unwrap();
    for i in (from..o.len()).filter(|&i| count_points(&o[i]) > 0) {
        let n = count_points(&o[i]);
        for k in 0..n { for j in 0..o.len() {
            if !mine(k + j) { continue; }
            sh().states.fetch_add(1, SeqCst);
            sh().transitions.fetch_add(2, SeqCst);
            let st = child(|| {
                AT.store(k, SeqCst);
                WHAT.store(j, SeqCst);
                set_hook(Some(reenter));
                let r = run(&o[i]);
                set_hook(None);
                check(o, base, i, &r, || format!("with {} called at its call-back {k}", o[j].0));
                let inner = INNER.lock().unwrap().clone();
                check(o, base, j, &inner, || format!("called from call-back {k} of {}", o[i].0));
            });
            if st != 0 { record(&o[i].0, &format!("with {} called at its call-back {k}", o[j].0), "returns", &ended(st)); }
        } }
    }
}

// ---------------------------------------------------------------- interleavings at calls and call-backs
struct Baton { turn: usize, done: [bool; 3], n: usize, choices: Vec<usize>, taken: Vec<(usize, usize)> }
static BATON: Mutex<Option<Baton>> = Mutex::new(None);
static CV: Condvar = Condvar::new();
thread_local! { static ME: Cell<usize> = const { Cell::new(usize::MAX) }; }
impl Baton {
    /// the next thread among those not done: the prescribed choice, or the first
    fn next(&mut self) {
        let live: Vec<usize> = (0..self.n).filter(|&t| !self.done[t]).collect();
        if live.is_empty() { self.turn = usize::MAX; return; }
        let k = self.taken.len();
        let c = self.choices.get(k).cloned().unwrap_or(0).min(live.len() - 1);
        self.taken.push((c, live.len()));
        self.turn = live[c];
    }
}
fn yield_point() {
    let me = ME.get();
    if me == usize::MAX { return; }
    let mut g = BATON.lock().unwrap();
    g.as_mut().unwrap().next();
    CV.notify_all();
    while g.as_ref().unwrap().turn != me { g = CV.wait(g).unwrap(); }
}
/// one schedule in a fresh process; the branching degrees met
fn schedule(o: &[Op], base: &[String], which: &[usize], choices: &[usize]) -> Option<Vec<(usize, usize)>> {
    sh().slot_len.store(0, SeqCst);
    let st = child(|| {
        *BATON.lock().unwrap() = Some(Baton { turn: usize::MAX, done: [false; 3], n: which.len(), choices: choices.to_vec(), taken: vec![] });
        set_hook(Some(yield_point));
        std::thread::scope(|s| {
            for (t, &i) in which.iter().enumerate() {
                s.spawn(move || {
                    ME.set(t);
                    { let mut g = BATON.lock().unwrap(); while g.as_ref().unwrap().turn != t { g = CV.wait(g).unwrap(); } }
                    let r = run(&o[i]);
                    ME.set(usize::MAX);
                    sh().transitions.fetch_add(1, SeqCst);
                    check(o, base, i, &r, || format!("thread {t} of {}, schedule {choices:?}", names(o, which)));
                    let mut g = BATON.lock().unwrap();
                    let b = g.as_mut().unwrap();
                    b.done[t] = true;
                    b.next();
                    CV.notify_all();
                });
            }
            BATON.lock().unwrap().as_mut().unwrap().next();
            CV.notify_all();
        });
        let g = BATON.lock().unwrap();
        let t = &g.as_ref().unwrap().taken;
        let s = sh();
        for (k, x) in t.iter().enumerate().take(30000) { s.slot[2 * k] = x.0 as u8; s.slot[2 * k + 1] = x.1 as u8; }
        s.slot_len.store(2 * t.len().min(30000), SeqCst);
    });
    sh().states.fetch_add(1, SeqCst);
    if st != 0 { record(&names(o, which), &format!("schedule {choices:?}"), "every thread returns", &ended(st)); return None; }
    let n = sh().slot_len.load(SeqCst);
    Some(sh().slot[..n].chunks(2).map(|c| (c[0] as usize, c[1] as usize)).collect())
}
/// every schedule of these operations, depth first, up to a number of preemptions when bounded
fn schedules(o: &[Op], base: &[String], which: &[usize], preemptions: usize) -> usize {
    let (mut choices, mut n): (Vec<usize>, usize) = (vec![], 0);
    loop {
        let Some(taken) = schedule(o, base, which, &choices) else { return n };
        n += 1;
        // choice 0 keeps the lowest live thread running: other choices are what is bounded
        let mut t = taken;
        loop {
            let Some((c, w)) = t.pop() else { return n };
            let used: usize = t.iter().filter(|x| x.0 > 0).count();
            if c + 1 < w && used < preemptions { choices = t.iter().map(|x| x.0).collect(); choices.push(c + 1); break; }
        }
    }
}

// ---------------------------------------------------------------- preemption at every instruction
mod step {
    use super::*;
    pub static COUNT: AtomicUsize = AtomicUsize::new(0);
    pub static ARMED: AtomicBool = AtomicBool::new(false);
    pub static ON: AtomicBool = AtomicBool::new(false);
    pub static CHILD: AtomicBool = AtomicBool::new(false);
    pub static BRANCH: AtomicBool = AtomicBool::new(false);
    pub static OTHERS: Mutex<Vec<usize>> = Mutex::new(vec![]);
    pub static K: AtomicUsize = AtomicUsize::new(0);
    pub static RESULT: Mutex<Option<Vec<String>>> = Mutex::new(None);
    pub static DONE: Condvar = Condvar::new();
    pub static mut BAD: Vec<(usize, i32)> = vec![];
    extern "C" { static __executable_start: u8; static etext: u8; }

    extern "C" fn trap(_: i32, _: *mut libc::siginfo_t, c: *mut libc::c_void) {
        unsafe {
            let u = &mut *(c as *mut libc::ucontext_t);
            let rip = u.uc_mcontext.gregs[libc::REG_RIP as usize] as usize;
            if !ON.load(SeqCst) { u.uc_mcontext.gregs[libc::REG_EFL as usize] &= !0x100; return; }
            // inside the C library (an allocation, a copy) no other thread is let in: it could hold the allocator
            if rip < &__executable_start as *const u8 as usize || rip >= &etext as *const u8 as usize { return; }
            let k = COUNT.fetch_add(1, SeqCst);
            if !BRANCH.load(SeqCst) { return; }
            let p = libc::fork();
            if p == 0 {
                libc::alarm(20);
                CHILD.store(true, SeqCst);
                ON.store(false, SeqCst);
                ARMED.store(false, SeqCst);
                K.store(k, SeqCst);
                u.uc_mcontext.gregs[libc::REG_EFL as usize] &= !0x100;
                let t = std::thread::spawn(|| { let r = OTHERS.lock().unwrap().iter().map(|&j| run(&TABLE.get().unwrap()[j])).collect(); *RESULT.lock().unwrap() = Some(r); DONE.notify_all(); });
                // the other operation runs to its end; if it waits for something this thread holds, this thread goes on
                let g = RESULT.lock().unwrap();
                let (g, _) = DONE.wait_timeout_while(g, Duration::from_millis(100), |r| r.is_none()).unwrap();
                drop(g);
                std::mem::forget(t);
                return;
            }
            let mut st = 0;
            while libc::waitpid(p, &mut st, 0) < 0 {}
            #[allow(static_mut_refs)]
            if st != 0 { BAD.push((k, st)); }
        }
    }
    pub fn install() {
        unsafe {
            let mut a: libc::sigaction = std::mem::zeroed();
            a.sa_sigaction = trap as usize;
            a.sa_flags = libc::SA_SIGINFO | libc::SA_NODEFER;
            assert_eq!(libc::sigaction(libc::SIGTRAP, &a, std::ptr::null_mut()), 0);
        }
    }
    pub fn stepped(o: &Op) -> String {
        ARMED.store(true, SeqCst);
        let r = (o.1)();
        ARMED.store(false, SeqCst);
        r
    }
}
fn length(o: &Op) -> usize {
    let st = child(|| { step::install(); step::stepped(o); sh().steps.store(step::COUNT.load(SeqCst) as u64, SeqCst); });
    if st != 0 { usize::MAX } else { sh().steps.load(SeqCst) as usize }
}
/// operation i preempted at every one of its instructions, where the operations js run one after another on another thread
fn preempted(o: &[Op], base: &[String], i: usize, js: &[usize]) {
    let who = || if js.len() == 1 { o[js[0]].0.clone() } else { format!("{} to {} ({} operations)", o[js[0]].0, o[js[js.len() - 1]].0, js.len()) };
    let st = child(|| {
        unsafe { libc::alarm(600) };
        step::install();
        *step::OTHERS.lock().unwrap() = js.to_vec();
        step::BRANCH.store(true, SeqCst);
        let r = step::stepped(&o[i]);
        if step::CHILD.load(SeqCst) {
            let k = step::K.load(SeqCst);
            check(o, base, i, &r, || format!("preempted at its instruction {k} by {}", who()));
            let g = step::RESULT.lock().unwrap();
            let (g, _) = step::DONE.wait_timeout_while(g, Duration::from_secs(10), |r| r.is_none()).unwrap();
            match &*g {
                Some(r) => for (&j, r) in js.iter().zip(r) { check(o, base, j, r, || format!("among {}, run while {} stood at its instruction {k}", who(), o[i].0)) },
                None => record(&who(), &format!("run while {} stood at its instruction {k}", o[i].0), "returns", "no end within 10 s"),
            }
            unsafe { libc::_exit(0) }
        }
        check(o, base, i, &r, || "stepped".into());
        let n = step::COUNT.load(SeqCst) as u64;
        sh().states.fetch_add(n, SeqCst);
        sh().transitions.fetch_add((1 + js.len() as u64) * n, SeqCst);
        #[allow(static_mut_refs)]
        for (k, st) in unsafe { &step::BAD } { record(&o[i].0, &format!("preempted at its instruction {k} by {}", who()), "both return", &ended(*st)); }
    });
    if st != 0 { record(&o[i].0, &format!("preempted by {}", who()), "returns", &ended(st)); }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (mode, thorough, w, n) = (a[1].as_str(), a[2] == "thorough", a[3].parse::<usize>().unwrap(), a[4].parse::<usize>().unwrap());
    std::panic::set_hook(Box::new(|_| {}));
    map_shared();
    let mut table = ops();
    let core = table.len();
    more(&mut table);
    let _ = TABLE.set(table);
    let o = TABLE.get().unwrap();
    let base = baseline(o);
    let mut rep = Report::default();
    let mine = move |i: usize| i % n == w;
    let all: Vec<usize> = (0..o.len()).collect();
    let first: Vec<usize> = (0..core).collect();
    match mode {
        "history" => {
            histories(o, &base, 2, &mut vec![], &mine, &all);
            histories(o, &base, 3, &mut vec![], &mine, &first);
            if thorough { let few: Vec<usize> = first.iter().cloned().filter(|i| i % 3 == 1).collect(); histories(o, &base, 4, &mut vec![], &|i| (i / 3) % n == w, &few); }
        }
        "repeat" => {
            repeats(o, &base, if thorough { 1_000_000 } else { 66_000 }, &|i| i < core && mine(i));
            repeats(o, &base, if thorough { 66_000 } else { 600 }, &|i| i >= core && mine(i));
        }
        "reenter" => reentrant(o, &base, &mine),
        "interleave" => {
            let from = o.iter().position(|x| x.0 == CALLBACK_FROM).unwrap();
            let (mut c, mut total) = (0, 0);
            // every pair of operations, at least one of which calls back
            for i in 0..core { for j in from..core {
                c += 1;
                if mine(c) { total += schedules(o, &base, &[i, j], if thorough { 6 } else { 3 }); }
            } }
            if thorough {
                for i in from..core { for j in from..core { for k in (from..core).step_by(3) { c += 1; if mine(c) { total += schedules(o, &base, &[i, j, k], 2); } } } }
            }
            rep.count("schedules", total as u64);
        }
        _ => {
            let limit = if thorough { 30_000 } else { 1_000 };
            let len: Vec<usize> = o.iter().map(length).collect();
            let short: Vec<usize> = all.iter().cloned().filter(|&i| len[i] <= limit).collect();
            if w == 0 {
                rep.count("operations", o.len() as u64);
                rep.count("operations stepped through", short.len() as u64);
                rep.count("instructions stepped through", short.iter().map(|&i| len[i] as u64).sum());
            }
            let mut c = 0;
            for &i in &short {
                // by itself and by its neighbours, each alone, and by all operations in turn
                let mut by: Vec<Vec<usize>> = [i, i + 1, i.wrapping_sub(1)].iter().take(if thorough { 3 } else { 2 }).filter(|&&j| j < o.len()).map(|&j| vec![j]).collect();
                if thorough { by.extend(all.iter().filter(|&&j| (i + j) % 4 == 0).map(|&j| vec![j])); }
                by.push(all.iter().cloned().filter(|&j| len[j] <= 8000 && (thorough || (i + j) % 4 == 0)).collect());
                for (k, js) in by.iter().enumerate() { if mine(c + 2 * k) { preempted(o, &base, i, js); } }
                c += 1;
            }
        }
    }
    let s = sh();
    rep.states = s.states.load(SeqCst);
    rep.traces = s.traces.load(SeqCst);
    rep.cases = 1;
    OPS.store(s.transitions.load(SeqCst), SeqCst);
    for b in &base { rep.outcome(b); }
    for i in [0, 9, 23, 40, 50] { rep.sample(|| format!("{}: {}", o[i].0, base[i])); }
    let text = String::from_utf8_lossy(&s.text[..s.len.load(SeqCst).min(s.text.len())]).into_owned();
    for l in text.split('\u{2}') {
        let f: Vec<&str> = l.split('\u{1}').collect();
        if f.len() == 4 { rep.begin_case(f[0]); rep.violation(f[0], mode, f[1].into(), f[2].into(), f[3].into()); }
    }
    rep.violations = rep.violations.max(s.violations.load(SeqCst));
    rep.finish();
}
