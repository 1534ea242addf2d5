use numeric_mc::{want, want_eq};
use numeric_ints::BigInt;
use numeric_mc::alpha::*;
use numeric_mc::big::*;
use numeric_mc::engine::{self, *};
use numeric_mc::refint::R;
use numeric_traits::cast::{FromChecked, FromSaturating, FromTruncating, IntoChecked, IntoSaturating, IntoTruncating};

trait Prim: Copy + PartialEq + std::fmt::Debug + std::fmt::Display {
    const BITS: u32;
    const SIGNED: bool;
    const NAME: &'static str;
    fn lo() -> R;
    fn hi() -> R;
    fn to_r(self) -> R;
    /// Of the low bits
    fn wrap(v: u128) -> Self;
}

macro_rules! prim {
    ($($ty:ident),*) => {$(
        impl Prim for $ty {
            const BITS: u32 = <$ty>::BITS;
            const SIGNED: bool = <$ty>::MIN != 0;
            const NAME: &'static str = stringify!($ty);
            fn lo() -> R { <$ty>::MIN.to_r() }
            fn hi() -> R { <$ty>::MAX.to_r() }
            fn to_r(self) -> R {
                if <$ty>::MIN != 0 { R::from_i128(self as i128) } else { R::from_u128(self as u128) }
            }
            fn wrap(v: u128) -> Self { v as $ty }
        }
    )*};
}
prim!(u8, i8, u16, i16, u32, i32, u64, i64, u128, i128, usize, isize);

fn out<T>(t: &mut Tally, a: &BigInt, r: &R) -> Res
where
    T: Prim + TryFrom<BigInt> + for<'a> TryFrom<&'a BigInt> + FromChecked<BigInt> + FromSaturating<BigInt> + FromTruncating<BigInt>,
{
    let name = T::NAME;
    let low = T::wrap(r.modulo_pow2(128).to_u128().unwrap());
    let fits = *r >= T::lo() && *r <= T::hi();
    let want = if fits { Some(low) } else { None };
    want_eq!(t, T::try_from(a.clone()).ok(), want, "{name}::try_from({r:?})");
    want_eq!(t, T::try_from(a).ok(), want, "{name}::try_from(&{r:?})");
    want_eq!(t, T::from_checked(a.clone()), want, "{name}::from_checked({r:?})");
    let c: Option<T> = a.clone().into_checked();
    want_eq!(t, c, want, "{r:?}.into_checked::<{name}>()");
    let sat = if fits {
        r.clone()
    } else if r.is_neg() {
        T::lo()
    } else {
        T::hi()
    };
    want_eq!(t, T::saturate_from(a.clone()).to_r(), sat.clone(), "{name}::saturate_from({r:?})");
    let s: T = a.clone().saturate();
    want_eq!(t, s.to_r(), sat, "{r:?}.saturate::<{name}>()");
    want_eq!(t, T::truncate_from(a.clone()), low, "{name}::truncate_from({r:?})");
    let s: T = a.clone().truncate();
    want_eq!(t, s, low, "{r:?}.truncate::<{name}>()");
    t.state();
    Ok(())
}

fn all_out(t: &mut Tally, r: &R) -> Res {
    let a = mk(r);
    out::<u8>(t, &a, r)?;
    out::<i8>(t, &a, r)?;
    out::<u16>(t, &a, r)?;
    out::<i16>(t, &a, r)?;
    out::<u32>(t, &a, r)?;
    out::<i32>(t, &a, r)?;
    out::<u64>(t, &a, r)?;
    out::<i64>(t, &a, r)?;
    out::<u128>(t, &a, r)?;
    out::<i128>(t, &a, r)?;
    out::<usize>(t, &a, r)?;
    out::<isize>(t, &a, r)?;
    expect(&a, r, || format!("{r:?} changed by conversions"))
}

fn from<T: Prim>(t: &mut Tally, v: T) -> Res
where
    BigInt: From<T>,
{
    expect(&BigInt::from(v), &v.to_r(), || format!("BigInt::from({v}{})", T::NAME))?;
    t.op();
    t.state();
    Ok(())
}

/// The exact value of a finite float
fn float_r(f: f64) -> (R, i32) {
    let bits = f.to_bits();
    let exp = ((bits >> 52) & 0x7FF) as i32;
    let man = bits & ((1 << 52) - 1);
    let (man, exp) = if exp == 0 { (man, -1074) } else { (man | 1 << 52, exp - 1075) };
    let r = R::from_u128(man as u128);
    (if f < 0.0 { r.neg() } else { r }, exp)
}

fn float(t: &mut Tally, r: &R) -> Res {
    let a = mk(r);
    let f = a.approx_float();
    t.op();
    t.state();
    if f.is_nan() {
        return Err(format!("approx_float of {r:?} is NaN"));
    }
    if r.is_zero() {
        want!(t, f == 0.0, "approx_float of 0 is {f}");
        return Ok(());
    }
    want!(t, (f < 0.0) == r.is_neg() && f != 0.0, "approx_float of {r:?} is {f}, wrong sign");
    let bl = r.abs().bit_len();
    if f.is_infinite() {
        // Beyond (or, allowing for the error of the approximation, at the very edge of) the range
        want!(t, bl >= 1024, "approx_float of {r:?} ({bl} bits) is {f}");
        return Ok(());
    }
    // |f - r| * 10^9 <= |r|
    let (m, e) = float_r(f);
    let (fv, rv) = if e >= 0 { (m.shl(e as usize), r.clone()) } else { (m, r.shl((-e) as usize)) };
    let err = fv.sub(&rv).abs().mul(&R::from_u128(1_000_000_000));
    want!(t, err <= rv.abs(), "approx_float of {r:?} is {f:e}");
    Ok(())
}

fn main() {
    engine::main(|c| {
        c.section("to primitives");
        let vals = signed(&magnitudes(if c.thorough { 2 } else { 1 }));
        for chunk in vals.chunks(4) {
            c.case(
                || format!("{} values from {:?}, 12 types", chunk.len(), chunk[0]),
                |t| chunk.iter().try_for_each(|r| all_out(t, r)),
            );
        }

        c.section("lengths");
        for len in lengths(c.thorough) {
            c.case(
                || format!("values of {len} limbs"),
                |t| {
                    for r in of_length(len) {
                        for r in [r.clone(), r.neg()] {
                            all_out(t, &r)?;
                            float(t, &r)?;
                        }
                    }
                    Ok(())
                },
            );
        }

        c.section("around every bound");
        let n: i128 = if c.thorough { 140 } else { 20 };
        for bits in 0..(if c.thorough { 700 } else { 330 }) {
            c.case(
                || format!("2^{bits} and -2^{bits}, +-{n}"),
                |t| {
                    for d in -n..=n {
                        let r = R::pow2(bits).add(&R::from_i128(d));
                        all_out(t, &r)?;
                        all_out(t, &r.neg())?;
                    }
                    // Low bits of all kinds below a high word
                    for low in [0u64, 1, 0x7F, 0x80, 0xFF, 0x7FFF, 0x8000, 0xFFFF, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFF, 1 << 62, 1 << 63, u64::MAX] {
                        let r = R::pow2(bits).mul(&R::pow2(64)).add(&R::from_u128(low as u128));
                        all_out(t, &r)?;
                        all_out(t, &r.neg())?;
                    }
                    Ok(())
                },
            );
        }

        c.section("every small value");
        let n: i128 = if c.thorough { 140_000 } else { 33_500 };
        for k in 0..(2 * n / 50) {
            let lo = -n + k * 50;
            c.case(
                || format!("{lo}..{}", lo + 50),
                |t| (lo..lo + 50).try_for_each(|v| all_out(t, &R::from_i128(v))),
            );
        }

        c.section("from 8- and 16-bit primitives, all values");
        for hi in 0..=255u16 {
            c.case(
                || format!("all 16-bit patterns with high byte {hi}"),
                |t| {
                    for lo in 0..=255u16 {
                        let v = hi << 8 | lo;
                        from(t, v)?;
                        from(t, v as i16)?;
                        from(t, v as u32)?;
                        from(t, v as i16 as i32)?;
                    }
                    from(t, hi as u8)?;
                    from(t, hi as u8 as i8)
                },
            );
        }

        c.section("from wide primitives");
        let mut pats: Vec<u128> = Vec::new();
        for i in 0..128 {
            for j in (i..128).step_by(1) {
                // Runs of ones from bit i to bit j, and their complements
                let run = (u128::MAX >> (127 - j)) & (u128::MAX << i);
                pats.push(run);
                pats.push(!run);
                pats.push((1 << i) | (1 << j));
            }
        }
        for chunk in pats.chunks(64) {
            c.case(
                || format!("{} bit patterns from {:#x}", chunk.len(), chunk[0]),
                |t| {
                    for &p in chunk {
                        from(t, p)?;
                        from(t, p as i128)?;
                        from(t, p as u64)?;
                        from(t, p as i64)?;
                        from(t, p as usize)?;
                        from(t, p as isize)?;
                        from(t, p as u32)?;
                        from(t, p as i32)?;
                    }
                    Ok(())
                },
            );
        }

        c.section("float approximation");
        for chunk in vals.chunks(32) {
            c.case(
                || format!("{} values from {:?}", chunk.len(), chunk[0]),
                |t| chunk.iter().try_for_each(|r| float(t, r)),
            );
        }
        for bits in 0..1300usize {
            c.case(
                || format!("values of about {bits} bits"),
                |t| {
                    for d in [-1i128, 0, 1] {
                        for m in [1u128, 3, 5, 7, 0x1F_FFFF_FFFF_FFFF] {
                            let r = R::pow2(bits).mul(&R::from_u128(m)).add(&R::from_i128(d));
                            if r.abs().bit_len() <= 1400 {
                                float(t, &r)?;
                                float(t, &r.neg())?;
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
    });
}
