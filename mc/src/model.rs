//! The reference model: a layout is a list of leaves with absolute MSB0 bit positions, packing and
//! unpacking are done one bit at a time.  Nothing here is shared with the implementation.
use crate::leaf::{MARK, V};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind { U, S, B, R0, R1, E, C }

#[derive(Clone, Debug)]
pub struct L {
    pub kind: Kind,
    /// first stored bit, MSB0
    pub start: usize,
    /// width of the encoding; the first `cut` bits of it are not stored
    pub width: usize,
    pub cut: usize,
    pub lsb: bool,
    /// width of the native type that holds the value
    pub native: usize,
    pub signed: bool,
    pub disc: Vec<V>,
    pub name: String,
}

#[derive(Clone, Debug, Default)]
pub struct Spec {
    pub name: String,
    pub nbytes: usize,
    pub nbits: usize,
    pub leaves: Vec<L>,
    pub claimed: Vec<u8>,
    pub extra: Vec<String>,
}

fn mask(w: usize) -> u128 { if w >= 128 { !0 } else { (1u128 << w) - 1 } }

pub fn sext(raw: u128, w: usize) -> V {
    let raw = raw & mask(w);
    if w > 0 && (raw >> (w - 1)) & 1 == 1 { raw as V - (1i128 << w) } else { raw as V }
}

impl L {
    /// value of this leaf for an N-bit pattern (None: not a valid value)
    pub fn decode(&self, raw: u128) -> Option<V> {
        let raw = raw & mask(self.width);
        let num = if self.signed { sext(raw, self.width) } else { raw as V };
        match self.kind {
            Kind::U | Kind::S => Some(num),
            Kind::B => if raw > 1 { None } else { Some(raw as V) },
            Kind::R0 | Kind::R1 => Some(0),
            Kind::E => if self.disc.contains(&num) { Some(num) } else { None },
            Kind::C => Some(if self.disc.contains(&num) { num } else { num + MARK }),
        }
    }
    pub fn encode(&self, v: V) -> u128 {
        match self.kind {
            Kind::R0 => 0,
            Kind::R1 => !0,
            _ => {
                let v = if v >= MARK / 2 { v - MARK } else { v };
                (v as u128) & mask(self.width)
            }
        }
    }
    /// value -> the canonical value after a trip through `width` bits; None when that is not a value
    pub fn norm(&self, v: V) -> Option<V> { self.decode(self.encode(v)) }
    pub fn fits(&self, v: V) -> bool {
        if self.norm(v) != Some(v) { return false; }
        // a slot narrower than the nested encoding drops its leading bits
        matches!(self.kind, Kind::R0 | Kind::R1) || (0..self.cut).all(|k| self.encode(v) >> self.order(k) & 1 == 0)
    }

    /// index k (0 = first, most significant stored) of the encoding -> bit number of the value
    /// (bit 0 = least significant)
    fn order(&self, k: usize) -> usize {
        let w = self.width;
        if !self.lsb || w <= 8 { return w - 1 - k; }
        // little endian: full low bytes first, each most significant bit first, then the leftover
        let full = (w / 8) * 8;
        if k < full { (k / 8) * 8 + (7 - k % 8) } else { w - 1 - (k - full) }
    }
}

pub fn get_bit(b: &[u8], i: usize) -> bool { b[i / 8] >> (7 - i % 8) & 1 == 1 }
pub fn set_bit(b: &mut [u8], i: usize, v: bool) {
    let m = 1u8 << (7 - i % 8);
    if v { b[i / 8] |= m } else { b[i / 8] &= !m }
}

impl Spec {
    pub fn finish(&mut self) {
        self.claimed = vec![0; self.nbytes];
        for l in &self.leaves {
            for k in 0..l.width - l.cut { set_bit(&mut self.claimed, l.start + k, true); }
        }
    }
    pub fn pack(&self, v: &[V], out: &mut Vec<u8>) {
        out.clear();
        out.resize(self.nbytes, 0);
        for (l, &x) in self.leaves.iter().zip(v) {
            let raw = l.encode(x);
            for k in l.cut..l.width {
                // reserved fields may be wider than 128 bits, but their bits are all alike
                let bit = match l.kind { Kind::R0 => false, Kind::R1 => true, _ => raw >> l.order(k) & 1 == 1 };
                set_bit(out, l.start + k - l.cut, bit);
            }
        }
    }
    /// Err: index of an invalid leaf
    pub fn unpack(&self, b: &[u8], out: &mut Vec<V>) -> Result<(), usize> {
        out.clear();
        let mut err = None;
        for (i, l) in self.leaves.iter().enumerate() {
            let mut raw = 0u128;
            if !matches!(l.kind, Kind::R0 | Kind::R1) {
                for k in l.cut..l.width {
                    if get_bit(b, l.start + k - l.cut) { raw |= 1 << l.order(k); }
                }
            }
            match l.decode(raw) {
                Some(v) => out.push(v),
                None => { if err.is_none() { err = Some(i) } out.push(0) }
            }
        }
        match err { Some(i) => Err(i), None => Ok(()) }
    }
    /// what repacking `b` has to give
    pub fn canon(&self, b: &[u8], out: &mut Vec<u8>) {
        out.clear();
        out.extend(b.iter().zip(&self.claimed).map(|(x, m)| x & m));
        for l in &self.leaves {
            let c = match l.kind { Kind::R0 => false, Kind::R1 => true, _ => continue };
            for k in 0..l.width - l.cut { set_bit(out, l.start + k, c); }
        }
    }

    /// Text form, see gen/layout.py:
    ///   S <name> <nbytes> <nbits>
    ///   L <kind> <start> <width> <cut> <m|l> <native> <u|s> <disc,disc|-> <name>
    ///   X <anything>
    pub fn parse_all(text: &str) -> Vec<Spec> {
        let mut r: Vec<Spec> = vec![];
        for line in text.lines() {
            let f: Vec<&str> = line.split(' ').collect();
            match f[0] {
                "S" => r.push(Spec { name: f[1].into(), nbytes: f[2].parse().unwrap(), nbits: f[3].parse().unwrap(), ..Default::default() }),
                "L" => r.last_mut().unwrap().leaves.push(L {
                    kind: match f[1] { "U" => Kind::U, "S" => Kind::S, "B" => Kind::B, "R0" => Kind::R0, "R1" => Kind::R1, "E" => Kind::E, "C" => Kind::C, k => panic!("kind {k}") },
                    start: f[2].parse().unwrap(),
                    width: f[3].parse().unwrap(),
                    cut: f[4].parse().unwrap(),
                    lsb: f[5] == "l",
                    native: f[6].parse().unwrap(),
                    signed: f[7] == "s",
                    disc: if f[8] == "-" { vec![] } else { f[8].split(',').map(|x| x.parse().unwrap()).collect() },
                    name: f[9].into(),
                }),
                "X" => r.last_mut().unwrap().extra.push(line[2..].to_string()),
                "" => (),
                x => panic!("spec line {x}"),
            }
        }
        for s in &mut r { s.finish(); }
        r
    }
}
