use numeric_mc::engine::{self, *};
use numeric_mc::prim::Prim;
use numeric_mc::refint::R;
use numeric_mc::{want, want_eq};
use numeric_traits::class::{Bounded, BoundedBit, BoundedSigned, Signed};
use numeric_traits::identity::{One, Zero};
use numeric_traits::ops::checked::*;
use numeric_traits::ops::overflowing::*;
use numeric_traits::ops::widening::WideningMul;
use numeric_traits::ops::wrapping::*;
use numeric_traits::ops::{Factorial, Gcd, Pow};
use std::num::*;

fn gcd(a: &R, b: &R) -> R {
    let (mut a, mut b) = (a.abs(), b.abs());
    while !b.is_zero() {
        let r = a.div_rem(&b).1;
        a = b;
        b = r;
    }
    a
}

/// The exact power, if it is no larger than any type holds
fn pow(a: &R, n: u128) -> Option<R> {
    if a.is_zero() {
        return Some(R::from_i128((n == 0) as i128));
    }
    if a.abs() == R::from_i128(1) {
        return Some(if a.is_neg() && n % 2 == 1 { R::from_i128(-1) } else { R::from_i128(1) });
    }
    if n > 128 {
        return None;
    }
    Some(a.pow(n as u32))
}

macro_rules! pair {
    ($t:ident $a:ident $b:ident $ty:ident) => {{
        let (a, b): ($ty, $ty) = ($a, $b);
        let n = stringify!($ty);
        let (ra, rb) = (a.r(), b.r());
        $t.state();
        let sum = ra.add(&rb);
        let dif = ra.sub(&rb);
        let prd = ra.mul(&rb);
        want_eq!($t, WrappingAdd::wrapping_add(a, b), $ty::modulo(&sum), "wrapping_add of {a} and {b} ({n})");
        want_eq!($t, WrappingSub::wrapping_sub(a, b), $ty::modulo(&dif), "wrapping_sub of {a} and {b} ({n})");
        want_eq!($t, WrappingMul::wrapping_mul(a, b), $ty::modulo(&prd), "wrapping_mul of {a} and {b} ({n})");
        want_eq!($t, CheckedAdd::checked_add(a, b), $ty::of(&sum), "checked_add of {a} and {b} ({n})");
        want_eq!($t, CheckedSub::checked_sub(a, b), $ty::of(&dif), "checked_sub of {a} and {b} ({n})");
        want_eq!($t, CheckedMul::checked_mul(a, b), $ty::of(&prd), "checked_mul of {a} and {b} ({n})");
        let quo = if b == 0 { None } else { $ty::of(&ra.div_rem(&rb).0) };
        want_eq!($t, CheckedDiv::checked_div(a, b), quo, "checked_div of {a} and {b} ({n})");
        want_eq!($t, OverflowingAdd::overflowing_add(a, b), ($ty::modulo(&sum), !$ty::fits(&sum)), "overflowing_add of {a} and {b} ({n})");
        want_eq!($t, OverflowingSub::overflowing_sub(a, b), ($ty::modulo(&dif), !$ty::fits(&dif)), "overflowing_sub of {a} and {b} ({n})");
        want_eq!($t, OverflowingMul::overflowing_mul(a, b), ($ty::modulo(&prd), !$ty::fits(&prd)), "overflowing_mul of {a} and {b} ({n})");
        let g = gcd(&ra, &rb);
        if let Some(g) = $ty::of(&g) {
            want_eq!($t, Gcd::gcd(a, b), g, "gcd of {a} and {b} ({n})");
        }
        if let Some(p) = rb.to_u128().and_then(|e| pow(&ra, e)).and_then(|p| $ty::of(&p)) {
            want_eq!($t, Pow::pow(a, b), p, "{a} to the power {b} ({n})");
        }
        // Shifts by the same type
        let bits = <$ty as Prim>::BITS;
        let dist = rb.to_u128().filter(|d| *d < bits as u128).map(|d| d as usize);
        want_eq!($t, <$ty as CheckedShl>::checked_shl(a, b), dist.map(|d| $ty::modulo(&ra.shl(d))), "checked_shl of {a} by {b} ({n})");
        want_eq!($t, <$ty as CheckedShr>::checked_shr(a, b), dist.map(|d| $ty::modulo(&ra.shr_floor(d))), "checked_shr of {a} by {b} ({n})");
        let d = rb.modulo_pow2(bits.trailing_zeros() as usize).to_u128().unwrap() as usize;
        want_eq!($t, WrappingShl::wrapping_shl(a, b), $ty::modulo(&ra.shl(d)), "wrapping_shl of {a} by {b} ({n})");
        want_eq!($t, WrappingShr::wrapping_shr(a, b), $ty::modulo(&ra.shr_floor(d)), "wrapping_shr of {a} by {b} ({n})");
    }};
}

macro_rules! single {
    ($t:ident $a:ident $ty:ident) => {{
        let a: $ty = $a;
        let n = stringify!($ty);
        let ra = a.r();
        let bits = <$ty as Prim>::BITS;
        $t.state();
        want_eq!($t, Zero::is_zero(&a), a == 0, "is_zero of {a} ({n})");
        want_eq!($t, One::is_one(&a), a == 1, "is_one of {a} ({n})");
        let pat = ra.modulo_pow2(bits);
        let lead = (bits - pat.bit_len()) as $ty;
        let trail = (0..bits).find(|i| !pat.shr_floor(*i).modulo_pow2(1).is_zero()).unwrap_or(bits) as $ty;
        want_eq!($t, BoundedBit::leading_zeros(a), lead, "leading_zeros of {a} ({n})");
        want_eq!($t, BoundedBit::trailing_zeros(a), trail, "trailing_zeros of {a} ({n})");
        for d in (0..2 * bits + 2).chain([255, 256, 256 + 1, 1 << 16, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 63, usize::MAX]) {
            let ok = d < bits;
            want_eq!($t, <$ty as CheckedShl<usize>>::checked_shl(a, d), ok.then(|| $ty::modulo(&ra.shl(d))), "checked_shl of {a} by {d} ({n})");
            want_eq!($t, <$ty as CheckedShr<usize>>::checked_shr(a, d), ok.then(|| $ty::modulo(&ra.shr_floor(d))), "checked_shr of {a} by {d} ({n})");
        }
        for e in (0..=10u128).chain([15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 65535, 65536, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 33) - 1, 1 << 63, (1 << 63) + 1, u64::MAX as u128, 1 << 64, (1 << 126) + 1, i128::MAX as u128, u128::MAX - 1, u128::MAX]) {
            let Ok(e) = $ty::try_from(e) else { continue };
            let Some(p) = pow(&ra, e.r().to_u128().unwrap()).and_then(|p| $ty::of(&p)) else { continue };
            want_eq!($t, Pow::pow(a, e), p, "{a} to the power {e} ({n})");
        }
    }};
}

macro_rules! signed {
    ($t:ident $a:ident $ty:ident $nz:ident) => {{
        let a: $ty = $a;
        let n = stringify!($ty);
        if a != $ty::MIN {
            want_eq!($t, Signed::abs(a).r(), a.r().abs(), "abs of {a} ({n})");
        }
        want_eq!($t, Signed::is_positive(&a), a >= 0, "is_positive of {a} ({n})");
        want_eq!($t, Signed::is_negative(&a), a < 0, "is_negative of {a} ({n})");
        if let Some(z) = $nz::new(a) {
            if a != $ty::MIN {
                want_eq!($t, Signed::abs(z).get().r(), a.r().abs(), "abs of NonZero {a} ({n})");
            }
            want_eq!($t, Signed::is_positive(&z), a > 0, "is_positive of NonZero {a} ({n})");
            want_eq!($t, Signed::is_negative(&z), a < 0, "is_negative of NonZero {a} ({n})");
        }
    }};
}

macro_rules! all {
    ($c:ident: $($ty:ident $nz:ident $sig:ident)*) => {$({
        $c.section(concat!("constants of ", stringify!($ty)));
        $c.case(|| "constants".into(), |t| {
            let n = stringify!($ty);
            want_eq!(t, <$ty as Zero>::zero(), 0, "zero of {n}");
            want_eq!(t, <$ty as One>::one(), 1, "one of {n}");
            want_eq!(t, <$ty as Bounded>::min_value(), $ty::MIN, "min_value of {n}");
            want_eq!(t, <$ty as Bounded>::max_value(), $ty::MAX, "max_value of {n}");
            want_eq!(t, <$nz as One>::one().get(), 1, "one of NonZero {n}");
            want_eq!(t, <$nz as Bounded>::max_value().get(), $ty::MAX, "max_value of NonZero {n}");
            let min = if <$ty as Prim>::SIGNED { $ty::MIN } else { 1 };
            want_eq!(t, <$nz as Bounded>::min_value().get(), min, "min_value of NonZero {n}");
            all!(@consts $sig t $nz n);
            Ok(())
        });
        $c.section(concat!("unary operations on ", stringify!($ty)));
        let un = if <$ty as Prim>::BITS <= 16 { <$ty as Prim>::all() } else { <$ty as Prim>::edges(3) };
        for ch in un.chunks(32) {
            $c.case(|| format!("32 values from {}", ch[0]), |t| {
                for &a in ch {
                    single!(t a $ty);
                    all!(@unary $sig t a $ty $nz);
                    if let Some(z) = $nz::new(a) {
                        want_eq!(t, One::is_one(&z), a == 1, "is_one of NonZero {a}");
                    }
                }
                Ok(())
            });
        }
        $c.section(concat!("pairs of ", stringify!($ty)));
        let vals = if <$ty as Prim>::BITS == 8 { <$ty as Prim>::all() } else { <$ty as Prim>::edges(2 + $c.thorough as u32) };
        for &a in &vals {
            $c.case(|| format!("{a} with every second operand"), |t| {
                for &b in &vals {
                    pair!(t a b $ty);
                }
                Ok(())
            });
        }
    })*};
    (@consts s $t:ident $nz:ident $n:ident) => {
        want_eq!($t, <$nz as BoundedSigned>::min_positive().get(), 1, "min_positive of NonZero {}", $n);
        want_eq!($t, <$nz as BoundedSigned>::max_negative().get(), -1, "max_negative of NonZero {}", $n);
    };
    (@consts u $t:ident $nz:ident $n:ident) => {};
    (@unary s $t:ident $a:ident $ty:ident $nz:ident) => { signed!($t $a $ty $nz) };
    (@unary u $t:ident $a:ident $ty:ident $nz:ident) => {{
        let a: $ty = $a;
        // No factorial above 40! fits any type
        if a <= 40 {
            let mut f = R::from_i128(1);
            for i in 2..=a { f = f.mul(&i.r()); }
            if let Some(f) = <$ty as Prim>::of(&f) {
                want_eq!($t, Factorial::factorial(a), f, "factorial of {a} ({})", stringify!($ty));
            }
        }
    }};
}

fn wide<T: Prim + WideningMul>(t: &mut Tally, a: T, b: T, add: T) -> Res {
    let full = a.r().mul(&b.r()).add(&add.r());
    let want = (T::modulo(&full), T::modulo(&full.shr_floor(T::BITS)));
    want_eq!(t, a.widening_mul(b, add), want, "widening_mul of {a} and {b} plus {add} ({})", T::NAME);
    Ok(())
}

macro_rules! widening {
    ($c:ident: $($ty:ident)*) => {$({
        $c.section(concat!("widening multiplication of ", stringify!($ty)));
        let vals = <$ty as Prim>::edges(if <$ty as Prim>::BITS > 16 || $c.thorough { 1 } else { 0 });
        for &a in &vals {
            for &b in &vals {
                $c.case(|| format!("{a} times {b} plus every value"), |t| {
                    for &add in &vals {
                        t.state();
                        wide(t, a, b, add)?;
                    }
                    Ok(())
                });
            }
        }
    })*};
}

/// Limb patterns whose partial products carry in every combination
fn halves() -> Vec<u128> {
    let h = [0u64, 1, 2, 1 << 31, 1 << 32, 1 << 63, u64::MAX - 1, u64::MAX];
    h.iter().flat_map(|hi| h.iter().map(move |lo| (*hi as u128) << 64 | *lo as u128)).collect()
}

macro_rules! floats {
    ($c:ident: $($ty:ident)*) => {$({
        $c.section(concat!("constants and predicates of ", stringify!($ty)));
        $c.case(|| "constants".into(), |t| {
            want!(t, <$ty as Zero>::zero().to_bits() == 0, "zero");
            want_eq!(t, <$ty as One>::one(), 1.0, "one");
            want_eq!(t, <$ty as Bounded>::min_value(), $ty::MIN, "min_value");
            want_eq!(t, <$ty as Bounded>::max_value(), $ty::MAX, "max_value");
            want_eq!(t, <$ty as BoundedSigned>::min_positive(), $ty::MIN_POSITIVE, "min_positive");
            want_eq!(t, <$ty as BoundedSigned>::max_negative(), -$ty::MIN_POSITIVE, "max_negative");
            Ok(())
        });
        let mut vals: Vec<$ty> = vec![0.0, 0.5, 1.0, 1.5, 2.0, 1.0 + $ty::EPSILON, 1.0 - $ty::EPSILON, $ty::MIN_POSITIVE, $ty::from_bits(1), $ty::MAX, $ty::INFINITY, $ty::MIN_POSITIVE / 2.0];
        for e in -30..30 { vals.push((2.0 as $ty).powi(e) * 1.25); }
        for v in vals.clone() { vals.push(-v); }
        for v in vals {
            $c.case(|| format!("{v:?}"), |t| {
                t.state();
                let neg = v.is_sign_negative() && v != 0.0;
                want_eq!(t, Zero::is_zero(&v), v.to_bits() << 1 == 0, "is_zero of {v:?}");
                want_eq!(t, One::is_one(&v), v.to_bits() == (1.0 as $ty).to_bits(), "is_one of {v:?}");
                want_eq!(t, Signed::is_positive(&v), !neg, "is_positive of {v:?}");
                want_eq!(t, Signed::is_negative(&v), neg, "is_negative of {v:?}");
                want_eq!(t, Signed::abs(v).to_bits(), v.to_bits() << 1 >> 1, "abs of {v:?}");
                Ok(())
            });
        }
    })*};
}

fn main() {
    engine::main(|c| {
        all! { c:
            u8 NonZeroU8 u
            i8 NonZeroI8 s
            u16 NonZeroU16 u
            i16 NonZeroI16 s
            u32 NonZeroU32 u
            i32 NonZeroI32 s
            u64 NonZeroU64 u
            i64 NonZeroI64 s
            u128 NonZeroU128 u
            i128 NonZeroI128 s
            usize NonZeroUsize u
            isize NonZeroIsize s
        }
        c.section("widening multiplication of u8, every triple");
        for a in 0..=255u8 {
            c.case(|| format!("{a} times every value plus every value"), |t| {
                for b in 0..=255u8 {
                    for add in 0..=255u8 {
                        let w = a as u32 * b as u32 + add as u32;
                        want_eq!(t, WideningMul::widening_mul(a, b, add), (w as u8, (w >> 8) as u8), "widening_mul of {a} and {b} plus {add} (u8)");
                    }
                    t.states += 256;
                }
                Ok(())
            });
        }
        if c.thorough {
            c.section("widening multiplication of u16, every pair");
            for a in 0..=u16::MAX {
                c.case(|| format!("{a} times every value"), |t| {
                    for b in 0..=u16::MAX {
                        for add in [0, 1, u16::MAX, a ^ b] {
                            let w = a as u32 * b as u32 + add as u32;
                            want_eq!(t, WideningMul::widening_mul(a, b, add), (w as u16, (w >> 16) as u16), "widening_mul of {a} and {b} plus {add} (u16)");
                        }
                    }
                    t.states += 65536;
                    Ok(())
                });
            }
        }
        widening!(c: u16 u32 u64 u128 usize);
        c.section("widening multiplication of u128, every carry pattern");
        let h = halves();
        for &a in &h {
            for &b in &h {
                c.case(|| format!("{a} times {b} plus every value"), |t| {
                    for &add in &h {
                        t.state();
                        wide(t, a, b, add)?;
                    }
                    Ok(())
                });
            }
        }
        floats!(c: f32 f64);
    });
}
