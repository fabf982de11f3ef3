// Structures of more than 2^24 bits: every bit of every field, one at a time. args: mode tier
use mc::report::*;
use packed_struct::prelude::*;
use packed_struct::PackedStructInfo;

macro_rules! huge { ($($s:ident $bits:tt {$($t:tt)*}, $w:expr, $start:expr, $len:expr, $from:expr, $to:expr);*) => { $(
    #[derive(PackedStruct, Debug, PartialEq)]
    #[packed_struct(bit_numbering = "msb0", endian = "msb")]
    pub struct $s { #[packed_field(bits = $bits)] pub f: $($t)* }
)*
fn go(mode: &str, rep: &mut Report) { $( {
    rep.begin_case(stringify!($s));
    let name = stringify!($s);
    let len: usize = $len;
    match mode {
        "size" => {
            rep.state("size");
            rep.trace();
            let got = op(|| (<$s as PackedStructInfo>::packed_bits(), <$s as PackedStructSlice>::packed_bytes_size(None).unwrap(), <<$s as PackedStruct>::ByteArray as packed_struct::types::bits::ByteArray>::len()));
            if !matches!(&got, Ok(g) if *g == ($start + $w, len, len)) { rep.violation(name, mode, "packed_bits, packed_bytes_size, ByteArray::len".into(), format!("{:?}", ($start + $w, len, len)), format!("{got:?}")); }
        }
        _ => for i in 0..$w {
            rep.state(&i);
            rep.outcome(&(name, i));
            rep.trace();
            let v: u64 = 1 << i;
            let bit: usize = $start + $w - 1 - i;
            if mode == "pack" {
                let got = op(|| Box::new(<$s as PackedStruct>::pack(&$s { f: $from(v) })));
                let ok = match &got { Ok(b) => match &**b { Ok(b) => b.len() == len && b.iter().enumerate().all(|(k, x)| *x == if k == bit / 8 { 0x80 >> (bit % 8) } else { 0 }), _ => false }, _ => false };
                if !ok { rep.violation(name, mode, format!("{v:#x}"), format!("bit {bit} alone"), match &got { Ok(b) => match &**b { Ok(b) => format!("bits {:?}", (0..b.len() * 8).filter(|k| b[k / 8] >> (7 - k % 8) & 1 == 1).take(9).collect::<Vec<_>>()), Err(e) => format!("{e:?}") }, Err(e) => e.clone() }); }
            } else {
                let mut src = Box::new([0u8; $len]);
                src[bit / 8] = 0x80 >> (bit % 8);
                let got = op(|| <$s as PackedStruct>::unpack(&src).map(|x| $to(x.f)));
                if !matches!(&got, Ok(Ok(x)) if *x == v) { rep.violation(name, mode, format!("bit {bit} alone"), format!("{v:#x}"), format!("{got:?}")); }
            }
        }
    }
    rep.sample(|| format!("{name} {} {len} bytes", $bits));
} )* } } }
huge! {
    H1 "16777217:16777224" {u8}, 8, 16777217, 2097154, |v: u64| v as u8, |x: u8| x as u64;
    H2 "16777223:16777238" {u16}, 16, 16777223, 2097155, |v: u64| v as u16, |x: u16| x as u64;
    H3 "16777219:16777229" {Integer<u16, packed_bits::Bits::<11>>}, 11, 16777219, 2097154, |v: u64| (v as u16).into(), |x: Integer<u16, packed_bits::Bits::<11>>| u16::from(x) as u64
}
fn main() {
    init();
    let a: Vec<String> = std::env::args().collect();
    let mode = a[1].clone();
    std::thread::Builder::new().stack_size(512 << 20).spawn(move || {
        let mut rep = Report::default();
        go(&mode, &mut rep);
        rep.finish();
    }).unwrap().join().unwrap();
}
