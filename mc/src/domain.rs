//! Bounded input domains. Every function enumerates a fixed, finite set completely.
use crate::model::*;
use crate::leaf::{MARK, V};

/// Bit patterns of width `w`: all of them up to `full` bits, otherwise the union of
///  * the Hamming balls of radius 2 around all-zeroes and all-ones (radius 1 around the alternating patterns),
///  * every value within 2 of a power of two (and their complements),
///  * every string over a small byte alphabet,
///  * one byte varying over all 256 values at each byte position over two backgrounds.
pub fn patterns(w: usize, full: usize, rich: bool) -> Vec<u64> {
    let m: u64 = if w >= 64 { !0 } else { (1u64 << w) - 1 };
    let mut r: Vec<u64> = vec![];
    if w <= full {
        r.extend(0..=m);
        return r;
    }
    r.extend([0, m, 1, 2, 3, m - 1, m - 2, m >> 1, (m >> 1) + 1]);
    let alt = [0x5555_5555_5555_5555u64 & m, 0xAAAA_AAAA_AAAA_AAAA & m, 0x0123_4567_89AB_CDEF & m, 0xFEDC_BA98_7654_3210 & m];
    r.extend(alt);
    for i in 0..w {
        let b = 1u64 << i;
        r.extend([b, m ^ b, b.wrapping_sub(1) & m, b.wrapping_sub(2) & m, b.wrapping_add(1) & m, b.wrapping_add(2) & m,
                  !b.wrapping_sub(1) & m, !b.wrapping_add(1) & m]);
        for a in alt { r.push(a ^ b); }
        for j in 0..i { let c = 1u64 << j; r.extend([b | c, m ^ b ^ c]); }
    }
    let nb = w.div_ceil(8);
    let alpha: &[u8] = match (nb, rich) {
        (..=3, _) => &[0x00, 0x01, 0x7F, 0x80, 0xFF, 0xA5, 0x3C],
        (4, true) => &[0x00, 0x01, 0x7F, 0x80, 0xFF, 0xA5],
        (4, false) => &[0x00, 0x01, 0x80, 0xFF],
        (_, true) => &[0x00, 0x80, 0xFF, 0xA5],
        (_, false) => &[0x00, 0xFF],
    };
    let mut idx = vec![0usize; nb];
    loop {
        let v = idx.iter().fold(0u64, |a, &i| a << 8 | alpha[i] as u64);
        r.push(v & m);
        let mut k = 0;
        while k < nb { idx[k] += 1; if idx[k] < alpha.len() { break; } idx[k] = 0; k += 1; }
        if k == nb { break; }
    }
    for p in 0..nb { for x in 0..256u64 {
        let x = x << (8 * p) & m;
        r.push(x);
        if rich { r.push((alt[2] & !(0xFFu64 << (8 * p))) | x); }
    } }
    r.sort_unstable();
    r.dedup();
    r
}

/// A linear-sized subset of `patterns`: Hamming distance 1 from the four regular patterns, the
/// neighbourhood of the powers of two.
pub fn light_patterns(w: usize) -> Vec<u64> {
    let m: u64 = if w >= 64 { !0 } else { (1u64 << w) - 1 };
    let mut r = vec![0, m, 1, m - 1];
    for i in 0..w {
        let b = 1u64 << i;
        r.extend([b, m ^ b, b.wrapping_sub(1) & m, b.wrapping_add(1) & m, !b.wrapping_sub(1) & m, (0x5555_5555_5555_5555 & m) ^ b, (0xAAAA_AAAA_AAAA_AAAA & m) ^ b]);
    }
    r.sort_unstable();
    r.dedup();
    r
}
pub fn values_light(l: &L) -> Vec<V> {
    match l.kind {
        Kind::R0 | Kind::R1 | Kind::B | Kind::E => values(l, 8, false),
        _ => light_patterns(l.width.min(64)).into_iter().filter_map(|p| l.decode(p as u128)).collect(),
    }
}

fn as_value(l: &L, raw: u64, w: usize) -> V {
    if l.signed { sext(raw as u128, w) } else { raw as V }
}

/// The small boundary set used for pairs.
pub fn corner(l: &L) -> Vec<V> {
    let w = l.width.min(64);
    let m: u64 = if w >= 64 { !0 } else { (1 << w) - 1 };
    let mut r = vec![];
    match l.kind {
        Kind::R0 | Kind::R1 => r.push(0),
        Kind::B => r.extend([0, 1]),
        Kind::E => { r.extend(l.disc.iter().take(4)); if l.disc.len() > 4 { r.push(*l.disc.last().unwrap()) } }
        _ => for p in [0, m, 1, 1u64 << (w - 1), 0xA5A5_A5A5_A5A5_A5A5 & m, m >> 1] {
            if let Some(v) = l.decode(p as u128) { if !r.contains(&v) { r.push(v) } }
        },
    }
    r
}

/// In-range values of a leaf.
pub fn values(l: &L, full: usize, rich: bool) -> Vec<V> {
    match l.kind {
        Kind::R0 | Kind::R1 => vec![0],
        Kind::B => vec![0, 1],
        Kind::E => l.disc.clone(),
        _ => patterns(l.width.min(64), full, rich).into_iter().filter_map(|p| l.decode(p as u128)).collect(),
    }
}

/// Values of the native type that do not fit the slot (only for kinds that hold native values).
pub fn wild(l: &L) -> Vec<V> {
    let mut catch: Vec<V> = vec![];
    if l.kind == Kind::C {
        // the catch-all variant holding a declared value, or one wider than the slot
        catch.extend(l.disc.iter().map(|d| d + MARK));
        if l.native <= l.width { return catch; }
    } else if !matches!(l.kind, Kind::U | Kind::S) || l.native <= l.width { return vec![]; }
    let nw = l.native;
    let m: u64 = if nw >= 64 { !0 } else { (1 << nw) - 1 };
    let mut p = vec![m, 1u64 << (nw - 1), m >> 1, 0xA5A5_A5A5_A5A5_A5A5 & m, 0x5A5A_5A5A_5A5A_5A5A & m];
    for i in 0..nw { p.push(1 << i); p.push(m ^ (1 << i)); p.push((1u64 << i) - 1); p.push((1u64 << i) + 1) }
    let mut r: Vec<V> = if l.kind == Kind::C { p.into_iter().map(|x| as_value(l, x, nw)).filter(|v| !l.disc.contains(v)).map(|v| v + MARK).collect() }
        else { p.into_iter().map(|x| as_value(l, x, nw)).filter(|&v| !l.fits(v)).collect() };
    r.extend(catch);
    r.sort_unstable();
    r.dedup();
    r
}

/// Number of background assignments.
pub const BGS: usize = 5;
pub fn background(l: &L, i: usize, bg: usize) -> V {
    let w = l.width.min(64);
    let m: u64 = if w >= 64 { !0 } else { (1 << w) - 1 };
    let raw = match bg {
        0 => 0,
        1 => m,
        2 => 0x5555_5555_5555_5555 & m,
        3 => 0xAAAA_AAAA_AAAA_AAAA & m,
        _ => (0x9E37_79B9_7F4A_7C15u64.wrapping_mul(i as u64 + 1)).rotate_left(17) & m,
    };
    match l.kind {
        Kind::R0 | Kind::R1 => 0,
        Kind::B => (raw & 1) as V,
        Kind::E => l.disc[match bg { 0 => 0, 1 => l.disc.len() - 1, _ => (raw as usize ^ i) % l.disc.len() }],
        _ => l.decode(raw as u128).unwrap(),
    }
}

/// Byte strings of length n: all for n <= 2 (n <= 1 unless `all2`), otherwise per background one
/// byte over all values at every position, every pair of neighbouring bytes over a small alphabet.
pub fn buffers(n: usize, all2: bool, rich: bool, f: &mut dyn FnMut(&[u8])) {
    if n == 0 { f(&[]); return; }
    if n == 1 || (n == 2 && all2) {
        let mut b = vec![0u8; n];
        for x in 0..(1u32 << (8 * n)) {
            for (i, y) in b.iter_mut().enumerate() { *y = (x >> (8 * (n - 1 - i))) as u8; }
            f(&b);
        }
        return;
    }
    let alpha: &[u8] = if rich { &[0, 1, 2, 4, 8, 0x10, 0x20, 0x40, 0x80, 0xFF, 0xA5, 0x5A, 0x0F, 0xF0, 0x7F, 0xFE] } else { &[0, 1, 0x10, 0x80, 0xFF, 0xA5, 0x0F] };
    let mut b = vec![0u8; n];
    for bg in 0..5 {
        for (i, x) in b.iter_mut().enumerate() {
            *x = match bg { 0 => 0, 1 => 0xFF, 2 => 0x55, 3 => 0xAA, _ => (i as u8).wrapping_mul(0x3D).wrapping_add(0x17) };
        }
        for i in 0..n {
            let keep = b[i];
            for x in 0..=255u8 { b[i] = x; f(&b); }
            b[i] = keep;
        }
        for i in 0..n - 1 {
            let keep = (b[i], b[i + 1]);
            for &x in alpha { for &y in alpha { b[i] = x; b[i + 1] = y; f(&b); } }
            b[i] = keep.0; b[i + 1] = keep.1;
        }
    }
}

/// The byte positions of large buffers that are varied.
pub fn sampled(i: usize, n: usize) -> bool { i < 40 || i + 40 >= n || i.abs_diff(n / 2) <= 24 || (i + 2) % 256 <= 4 || i % 97 == 0 }

/// Byte strings of length n: all for n <= 1, otherwise per background every single byte over ten values
/// (beyond 1500 bytes: the bytes within 40 of either end or 24 of the middle, those within 2 of a multiple
/// of 256 and every 97th).
pub fn few_buffers(n: usize, f: &mut dyn FnMut(&[u8])) {
    if n <= 1 { return buffers(n, false, false, f); }
    for bg in 0..3 {
        let mut b: Vec<u8> = (0..n).map(|i| match bg { 0 => 0, 1 => 0xFF, _ => (i as u8).wrapping_mul(0x3D).wrapping_add(0x17) }).collect();
        for i in 0..n {
            if n > 1500 && !sampled(i, n) { continue; }
            let keep = b[i];
            for x in [0, 1, 2, 4, 8, 0x10, 0x20, 0x40, 0x80, 0xFF] { b[i] = x; f(&b); }
            b[i] = keep;
        }
    }
}
