//! The primitive integers as exact values

use crate::refint::R;
use std::fmt::{Debug, Display};
use std::hash::Hash;

pub trait Prim: Copy + Eq + Ord + Debug + Display + Hash + 'static {
    const NAME: &'static str;
    const BITS: usize;
    const SIGNED: bool;
    const LEAST: Self;
    const MOST: Self;
    fn r(self) -> R;
    /// The value, if it is in range
    fn of(r: &R) -> Option<Self>;
    /// The value modulo 2^bits
    fn modulo(r: &R) -> Self {
        let m = if Self::SIGNED { r.modulo_signed(Self::BITS) } else { r.modulo_pow2(Self::BITS) };
        Self::of(&m).unwrap()
    }
    /// The nearest value in range
    fn clamp(r: &R) -> Self {
        Self::of(r).unwrap_or(if r.is_neg() { Self::LEAST } else { Self::MOST })
    }
    fn fits(r: &R) -> bool {
        Self::of(r).is_some()
    }
    /// Every value of an 8 or 16 bit type
    fn all() -> Vec<Self> {
        assert!(Self::BITS <= 16);
        let lo = Self::LEAST.r().to_i128().unwrap();
        let hi = Self::MOST.r().to_i128().unwrap();
        (lo..=hi).map(|v| Self::of(&R::from_i128(v)).unwrap()).collect()
    }
    /// Boundary values: `level` 0 is small
    fn edges(level: u32) -> Vec<Self> {
        let mut v: Vec<R> = vec![];
        let near: &[i128] = if level == 0 { &[-1, 0, 1] } else { &[-2, -1, 0, 1, 2] };
        let step = match level {
            0 => Self::BITS / 2,
            1 => (Self::BITS / 4).max(2),
            2 => (Self::BITS / 8).max(1),
            _ => 1,
        };
        let mut at: Vec<R> = vec![R::zero(), Self::LEAST.r(), Self::MOST.r()];
        for k in (0..=Self::BITS).step_by(step).chain([Self::BITS - 1]) {
            at.push(R::pow2(k));
            at.push(R::pow2(k).neg());
        }
        for a in at {
            for n in near {
                v.push(a.add(&R::from_i128(*n)));
            }
        }
        for x in [3i128, 5, 6, 7, 10, 12, 17, 30, 60, 97, 100] {
            v.push(R::from_i128(x));
            v.push(R::from_i128(-x));
        }
        if level > 0 {
            for x in [0x9E37_79B9_7F4A_7C15_F39C_C060_5CED_C834u128, 0x5555_5555_5555_5555_5555_5555_5555_5555, 0x0F0E_0D0C_0B0A_0908_0706_0504_0302_0100] {
                let x = R::from_u128(x).shr_floor(128 - Self::BITS);
                v.push(x.modulo_signed(Self::BITS));
                v.push(x.shr_floor(Self::BITS / 2));
                v.push(x.shr_floor(Self::BITS / 2).neg());
                v.push(x);
            }
        }
        let mut out: Vec<Self> = v.iter().filter_map(Self::of).collect();
        out.sort_unstable();
        out.dedup();
        // Simplest first
        out.sort_by_key(|x| x.r().abs().bit_len());
        out
    }
}

macro_rules! prim {
    ($($ty:ident $signed:literal $to:ident $from:ident)*) => {$(
        impl Prim for $ty {
            const NAME: &'static str = stringify!($ty);
            const BITS: usize = $ty::BITS as usize;
            const SIGNED: bool = $signed;
            const LEAST: $ty = $ty::MIN;
            const MOST: $ty = $ty::MAX;
            fn r(self) -> R { R::$from(self as _) }
            fn of(r: &R) -> Option<$ty> { r.$to().and_then(|v| $ty::try_from(v).ok()) }
        }
    )*};
}
prim! {
    u8 false to_u128 from_u128
    u16 false to_u128 from_u128
    u32 false to_u128 from_u128
    u64 false to_u128 from_u128
    u128 false to_u128 from_u128
    usize false to_u128 from_u128
    i8 true to_i128 from_i128
    i16 true to_i128 from_i128
    i32 true to_i128 from_i128
    i64 true to_i128 from_i128
    i128 true to_i128 from_i128
    isize true to_i128 from_i128
}
