//! Flattening of packed values into plain integers ("leaves"), written against the library's public
//! types only. It is the harness's own view of a value and uses none of the code under test beyond
//! constructing an `Integer` and reading it back.
use packed_struct::prelude::*;
use packed_struct::prelude::packed_bits::{Bits, NumberOfBits};
use packed_struct::PrimitiveEnum;
use std::ops::Deref;

pub type V = i128;
/// Added to the value of a catch-all enum that holds its catch-all variant.
pub const MARK: V = 1 << 100;

pub trait Prim: Copy {
    fn from_v(v: V) -> Self;
    fn to_v(self) -> V;
}
macro_rules! prim { ($($t:ty)*) => { $(
    impl Prim for $t {
        #[inline] fn from_v(v: V) -> Self { v as $t }
        #[inline] fn to_v(self) -> V { self as V }
    }
    impl Leaf for $t {
        const N: usize = 1;
        #[inline] fn set(v: &[V]) -> Self { v[0] as $t }
        #[inline] fn get(&self, out: &mut Vec<V>) { out.push(*self as V) }
    }
)* } }

pub trait Leaf: Sized {
    const N: usize;
    fn set(v: &[V]) -> Self;
    fn get(&self, out: &mut Vec<V>);
}
prim!(u8 i8 u16 i16 u32 i32 u64 i64);

impl Leaf for bool {
    const N: usize = 1;
    fn set(v: &[V]) -> Self { v[0] != 0 }
    fn get(&self, out: &mut Vec<V>) { out.push(*self as V) }
}
impl<T: Prim, const B: usize> Leaf for Integer<T, Bits<B>>
where T: Into<Integer<T, Bits<B>>>, Integer<T, Bits<B>>: Deref<Target = T> {
    const N: usize = 1;
    fn set(v: &[V]) -> Self { T::from_v(v[0]).into() }
    fn get(&self, out: &mut Vec<V>) { out.push((**self).to_v()) }
}
impl<X: Default, B: NumberOfBits> Leaf for ReservedBits<X, B> {
    const N: usize = 1;
    fn set(_: &[V]) -> Self { Default::default() }
    fn get(&self, out: &mut Vec<V>) { out.push(0) }
}
impl<T: Leaf, const K: usize> Leaf for [T; K] {
    const N: usize = K * T::N;
    fn set(v: &[V]) -> Self { std::array::from_fn(|i| T::set(&v[i * T::N..(i + 1) * T::N])) }
    fn get(&self, out: &mut Vec<V>) { for x in self { x.get(out) } }
}
impl<E: PrimitiveEnum + Leaf> Leaf for EnumCatchAll<E> where E::Primitive: Prim {
    const N: usize = 1;
    fn set(v: &[V]) -> Self {
        if v[0] >= MARK / 2 { EnumCatchAll::CatchAll(E::Primitive::from_v(v[0] - MARK)) } else { EnumCatchAll::Enum(E::set(v)) }
    }
    fn get(&self, out: &mut Vec<V>) {
        match self { EnumCatchAll::Enum(e) => e.get(out), EnumCatchAll::CatchAll(p) => out.push(p.to_v() + MARK) }
    }
}
