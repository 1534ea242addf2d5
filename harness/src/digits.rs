//! Digit slices of every element type, and their values

use crate::refint::R;
use numeric_bits::bit_slice::BitLike;
use std::fmt::{Debug, Display};
use std::hash::Hash;

pub trait Digit: BitLike + Debug + Display + Hash + 'static {
    const NAME: &'static str;
    const BYTES: usize;
    fn of(v: u128) -> Self;
    fn val(self) -> u128;
}

macro_rules! digit {
    ($($ty:ident),*) => {$(
        impl Digit for $ty {
            const NAME: &'static str = stringify!($ty);
            const BYTES: usize = std::mem::size_of::<$ty>();
            fn of(v: u128) -> $ty { v as $ty }
            fn val(self) -> u128 { self as u128 }
        }
    )*};
}
digit!(u8, u16, u32, u64, u128, usize);

pub fn value<T: Digit>(s: &[T]) -> R {
    let mut b = Vec::with_capacity(s.len() * T::BYTES);
    for d in s {
        b.extend_from_slice(&d.val().to_le_bytes()[..T::BYTES]);
    }
    R::from_bytes_le(false, &b)
}

/// The digits of a value that fits
pub fn digits<T: Digit>(r: &R, len: usize) -> Vec<T> {
    let b = r.bytes_le(len * T::BYTES);
    b.chunks(T::BYTES)
        .map(|c| {
            let mut v = [0; 16];
            v[..c.len()].copy_from_slice(c);
            T::of(u128::from_le_bytes(v))
        })
        .collect()
}

/// Boundary digits of a type; `level` 0 is small
pub fn alphabet<T: Digit>(level: u32) -> Vec<T> {
    let bits = T::BYTES * 8;
    let max = u128::MAX >> (128 - bits);
    let half = 1u128 << (bits - 1);
    let mut v = vec![0, 1, half, max];
    if level > 0 {
        v.extend([2, half - 1, max - 1]);
    }
    if level > 1 {
        v.extend([3, 10, half + 1, 1 << (bits / 2), (1 << (bits / 2)) - 1, max / 3, 0x9E37_79B9_7F4A_7C15_F39C_C060_5CED_C834 >> (128 - bits)]);
    }
    v.sort_unstable();
    v.dedup();
    v.into_iter().map(T::of).collect()
}
