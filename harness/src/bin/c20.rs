use numeric_mc::engine::{self, *};
use numeric_mc::prim::Prim;
use numeric_mc::refint::R;
use numeric_mc::{want, want_eq};
use numeric_traits::cast::*;

fn values<T: Prim>() -> Vec<T> {
    if T::BITS <= 16 {
        return T::all();
    }
    T::edges(3)
}

fn checked<A: Prim, B: Prim + FromChecked<A>>(t: &mut Tally, a: A) -> Res {
    let want = B::of(&a.r());
    want_eq!(t, B::from_checked(a), want, "{} from_checked {a} ({})", B::NAME, A::NAME);
    want_eq!(t, IntoChecked::<B>::into_checked(a), want, "{a} ({}) into_checked {}", A::NAME, B::NAME);
    Ok(())
}

fn truncating<A: Prim, B: Prim + FromTruncating<A>>(t: &mut Tally, a: A) -> Res {
    let want = B::modulo(&a.r());
    want_eq!(t, B::truncate_from(a), want, "{} truncate_from {a} ({})", B::NAME, A::NAME);
    want_eq!(t, IntoTruncating::<B>::truncate(a), want, "{a} ({}) truncate to {}", A::NAME, B::NAME);
    Ok(())
}

fn saturating<A: Prim, B: Prim + FromSaturating<A>>(t: &mut Tally, a: A) -> Res {
    let want = <B as Prim>::clamp(&a.r());
    want_eq!(t, B::saturate_from(a), want, "{} saturate_from {a} ({})", B::NAME, A::NAME);
    want_eq!(t, IntoSaturating::<B>::saturate(a), want, "{a} ({}) saturate to {}", A::NAME, B::NAME);
    Ok(())
}

/// A float as mantissa and exponent, value = m * 2^e
trait Flt: Copy + std::fmt::Debug + PartialEq + PartialOrd + 'static {
    const NAME: &'static str;
    const DIGITS: usize;
    const MIN_EXP: i32;
    fn parts(self) -> Option<(bool, u64, i32)>;
    fn nan(self) -> bool;
    fn neg(self) -> bool;
    fn bits(self) -> u64;
    fn build(m: u64, e: i32) -> Self;
}
macro_rules! flt {
    ($t:ident $m:literal $bias:literal) => {
        impl Flt for $t {
            const NAME: &'static str = stringify!($t);
            const DIGITS: usize = $t::MANTISSA_DIGITS as usize;
            const MIN_EXP: i32 = $t::MIN_EXP;
            fn parts(self) -> Option<(bool, u64, i32)> {
                if !self.is_finite() {
                    return None;
                }
                let b = self.to_bits() as u64;
                let f = b & ((1 << $m) - 1);
                let e = ((self.abs().to_bits() as u64) >> $m) as i32;
                Some(if e == 0 { (self.is_sign_negative(), f, 1 - $bias - $m) } else { (self.is_sign_negative(), f | 1 << $m, e - $bias - $m) })
            }
            fn nan(self) -> bool { self.is_nan() }
            fn neg(self) -> bool { self.is_sign_negative() }
            fn bits(self) -> u64 { self.to_bits() as u64 }
            fn build(m: u64, e: i32) -> $t {
                // Both halves are exact, one rounding at most
                (m as $t) * (2.0 as $t).powi(e)
            }
        }
    };
}
flt!(f32 23 127);
flt!(f64 52 1023);

/// The whole part of a float
fn whole<F: Flt>(f: F) -> Option<R> {
    let (neg, m, e) = f.parts()?;
    let m = R::from_u128(m as u128);
    let v = if e >= 0 { m.shl(e as usize) } else { m.shr_floor((-e) as usize) };
    Some(if neg { v.neg() } else { v })
}

fn float_to_int<F: Flt, B: Prim + FromSaturating<F>>(t: &mut Tally, f: F) -> Res {
    let want = if f.nan() {
        B::of(&R::zero()).unwrap()
    } else {
        match whole(f) {
            Some(v) => <B as Prim>::clamp(&v),
            None if f.neg() => B::LEAST,
            None => B::MOST,
        }
    };
    want_eq!(t, B::saturate_from(f), want, "{} saturate_from {f:?} ({})", B::NAME, F::NAME);
    Ok(())
}

fn int_to_float<A: Prim, F: Flt + FromSaturating<A>>(t: &mut Tally, a: A) -> Res {
    let got = F::saturate_from(a);
    let r = a.r();
    t.op();
    let name = || format!("{} saturate_from {a} ({}): got {got:?}", F::NAME, A::NAME);
    let Some((neg, m, e)) = got.parts() else {
        // Only beyond the midpoint above the largest float
        want!(t, !got.nan() && F::DIGITS == 24 && r >= R::pow2(128).sub(&R::pow2(103)), "{}, which is not finite", name());
        return Ok(());
    };
    // Scale everything by 2^200, so that all are integers
    let val = R::from_u128(m as u128).shl((e + 1100) as usize);
    let exact = r.abs().shl(1100);
    if neg != r.is_neg() && !r.is_zero() {
        return Err(format!("{}, of the wrong sign", name()));
    }
    if r.is_zero() {
        want!(t, m == 0, "{}", name());
        return Ok(());
    }
    let diff = val.sub(&exact).abs();
    // The spacing of floats just below and above the result
    let ulp = R::pow2((e + 1100) as usize);
    let below = if m == 1 << (F::DIGITS - 1) { ulp.shr_floor(1) } else { ulp.clone() };
    let half = if exact < val { below.shr_floor(1) } else { ulp.shr_floor(1) };
    want!(t, diff <= half, "{}, which is not the nearest", name());
    Ok(())
}

fn float_values<F: Flt>(thorough: bool) -> Vec<F> {
    let mut v = Vec::new();
    let top = 1u64 << (F::DIGITS - 1);
    let ms = [1, 3, 5, 7, top, top + 1, top | top >> 1, 2 * top - 1, 2 * top - 2, top | top >> 3 | 1];
    for e in -(F::DIGITS as i32) - 20..=132 {
        if !thorough && e > 4 && e % 8 > 1 && e % 8 < 7 {
            continue;
        }
        for m in ms {
            v.push(F::build(m, e));
        }
    }
    v
}

macro_rules! ints {
    ($c:ident: $($a:ident)*) => {$({
        $c.section(concat!("conversions of ", stringify!($a)));
        let vals = values::<$a>();
        for ch in vals.chunks(32) {
            $c.case(|| format!("32 values from {}", ch[0]), |t| {
                for &a in ch {
                    t.state();
                    ints!(@to t a $a: u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
                    ints!(@sat t a $a);
                    int_to_float::<$a, f32>(t, a)?;
                    int_to_float::<$a, f64>(t, a)?;
                }
                Ok(())
            });
        }
    })*};
    (@to $t:ident $v:ident $a:ident: $($b:ident)*) => {$(
        checked::<$a, $b>($t, $v)?;
        truncating::<$a, $b>($t, $v)?;
    )*};
    (@sat $t:ident $v:ident isize) => { ints!(@sats $t $v isize: u8 u16 u32 u64 u128 usize i16 i32 i64 i128 isize) };
    (@sat $t:ident $v:ident $a:ident) => { ints!(@sats $t $v $a: u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize) };
    (@sats $t:ident $v:ident $a:ident: $($b:ident)*) => {$( saturating::<$a, $b>($t, $v)?; )*};
}

macro_rules! floats {
    ($c:ident: $($f:ident)*) => {$({
        $c.section(concat!("conversions of ", stringify!($f)));
        let mut vals: Vec<$f> = float_values::<$f>($c.thorough);
        vals.extend([0.0, 0.5, 0.99, 1.0, 1.5, 126.9, 127.0, 127.5, 128.0, 128.5, 255.0, 255.5, 256.0, $f::MAX, $f::MIN_POSITIVE, $f::from_bits(1), $f::INFINITY, $f::EPSILON]);
        for k in 0..=128 {
            let p = (2.0 as $f).powi(k);
            vals.extend([p, $f::from_bits(p.to_bits() - 1), $f::from_bits(p.to_bits() + 1), p - 1.0, p + 1.0, p - 0.5, p + 0.5]);
        }
        for v in vals.clone() { vals.push(-v); }
        vals.extend([$f::NAN, -$f::NAN]);
        for ch in vals.chunks(32) {
            $c.case(|| format!("32 values from {:?}", ch[0]), |t| {
                for &v in ch {
                    t.state();
                    floats!(@to t v $f: u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
                }
                Ok(())
            });
        }
    })*};
    (@to $t:ident $v:ident $f:ident: $($b:ident)*) => {$( float_to_int::<$f, $b>($t, $v)?; )*};
}

fn main() {
    engine::main(|c| {
        ints!(c: u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
        floats!(c: f32 f64);
        if c.thorough {
            c.section("every f32");
            for hi in 0..=u16::MAX {
                c.case(|| format!("bits {hi:#x}0000 and on"), |t| {
                    for lo in 0..=u16::MAX {
                        let v = f32::from_bits((hi as u32) << 16 | lo as u32);
                        // The widest types against exact halves
                        let w = v as f64;
                        let clip = |lo: f64, hi: f64| if w.is_nan() { 0.0 } else { w.trunc().max(lo).min(hi) };
                        want_eq!(t, <u8 as FromSaturating<f32>>::saturate_from(v), clip(0.0, 255.0) as u32 as u8, "u8 saturate_from {v:?}");
                        want_eq!(t, <i8 as FromSaturating<f32>>::saturate_from(v), clip(-128.0, 127.0) as i32 as i8, "i8 saturate_from {v:?}");
                        want_eq!(t, <u16 as FromSaturating<f32>>::saturate_from(v), clip(0.0, 65535.0) as u32 as u16, "u16 saturate_from {v:?}");
                        want_eq!(t, <i16 as FromSaturating<f32>>::saturate_from(v), clip(-32768.0, 32767.0) as i32 as i16, "i16 saturate_from {v:?}");
                        want_eq!(t, <i32 as FromSaturating<f32>>::saturate_from(v), clip(-2147483648.0, 2147483647.0) as i64 as i32, "i32 saturate_from {v:?}");
                        want_eq!(t, <u32 as FromSaturating<f32>>::saturate_from(v), clip(0.0, 4294967295.0) as i64 as u32, "u32 saturate_from {v:?}");
                    }
                    t.states += 65536;
                    Ok(())
                });
            }
        }
    });
}
