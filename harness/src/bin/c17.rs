use numeric_ints::{BigInt, U};
use numeric_mc::big;
use numeric_mc::engine::{self, *};
use numeric_mc::prim::Prim;
use numeric_mc::refint::R;
use numeric_mc::{want, want_eq};
use numeric_reals::Fixed;
use numeric_traits::class::{Bounded, BoundedSigned, Integral, Real, Signed};
use numeric_traits::identity::{One, Zero};
use std::cmp::Ordering;
use std::fmt::Debug;

/// A backing integer
trait Back: Integral + Clone + Debug + Ord {
    fn name() -> String;
    /// The integer with a value, if it has one
    fn of(r: &R) -> Option<Self>;
}

macro_rules! back {
    ($($ty:ident)*) => {$(
        impl Back for $ty {
            fn name() -> String { stringify!($ty).to_string() }
            fn of(r: &R) -> Option<$ty> { <$ty as Prim>::of(r) }
        }
    )*};
}
back!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);

impl Back for BigInt {
    fn name() -> String {
        "BigInt".to_string()
    }
    fn of(r: &R) -> Option<BigInt> {
        Some(big::mk(r))
    }
}

impl<const B: usize> Back for U<B> {
    fn name() -> String {
        format!("U<{B}>")
    }
    fn of(r: &R) -> Option<U<B>> {
        (!r.is_neg() && r.bit_len() <= 8 * B).then(|| U::from_le_bytes(r.bytes_le(B).try_into().unwrap()))
    }
}

fn floor_div(a: &R, b: &R) -> R {
    let (q, r) = a.div_rem(b);
    if !r.is_zero() && (r.is_neg() != b.is_neg()) {
        q.sub(&R::from_i128(1))
    } else {
        q
    }
}

fn raw<T: Back, const N: usize>(r: &R) -> Option<Fixed<T, N>> {
    T::of(r).map(Fixed::from_raw)
}

/// The result must be one of the given raw values
macro_rules! among {
    ($t:expr, $got:expr, $opts:expr, $($fmt:tt)*) => {{
        $t.ops += 1;
        let got = $got;
        let opts: &[R] = &$opts;
        if !opts.iter().any(|o| raw::<T, N>(o).is_some_and(|o| got == o)) {
            return Err(format!("{}: the result has none of the raw values {:?}", format!($($fmt)*), opts));
        }
    }};
}

fn unary<T: Back, const N: usize>(t: &mut Tally, a: &R) -> Res {
    let name = format!("Fixed<{}, {N}> with raw value {a:?}", T::name());
    let one = R::pow2(N);
    let x = || raw::<T, N>(a).unwrap();
    t.state();
    let down = floor_div(a, &one).mul(&one);
    let up = if down == *a { down.clone() } else { down.add(&one) };
    let trunc = if a.is_neg() { up.clone() } else { down.clone() };
    among!(t, x().clone(), [a.clone()], "clone of {name}");
    among!(t, x().floor(), [down.clone()], "floor of {name}");
    if T::of(&up).is_some() {
        among!(t, x().ceil(), [up.clone()], "ceil of {name}");
    }
    among!(t, x().trunc(), [trunc.clone()], "trunc of {name}");
    among!(t, x().fract(), [a.sub(&trunc)], "fract of {name}");
    let (lo, hi) = (a.sub(&down), up.sub(a));
    match lo.cmp(&hi) {
        Ordering::Less => among!(t, x().round(), [down.clone()], "round of {name}"),
        Ordering::Greater if T::of(&up).is_some() => among!(t, x().round(), [up.clone()], "round of {name}"),
        Ordering::Equal => among!(t, x().round(), [down.clone(), up.clone()], "round of {name}"),
        _ => {}
    }
    if T::of(&a.mul(&one)).is_some() {
        among!(t, Fixed::<T, N>::from_val(T::of(a).unwrap()), [a.mul(&one)], "Fixed<{}, {N}>::from_val({a:?})", T::name());
    }
    want_eq!(t, x().is_zero(), a.is_zero(), "is_zero of {name}");
    want_eq!(t, x().is_one(), *a == one, "is_one of {name}");
    want!(t, x() == x() && x().partial_cmp(&x()) == Some(Ordering::Equal), "{name} is equal to itself");
    Ok(())
}

fn signed<T: Back + Signed, const N: usize>(t: &mut Tally, a: &R) -> Res {
    let name = format!("Fixed<{}, {N}> with raw value {a:?}", T::name());
    let x = || raw::<T, N>(a).unwrap();
    if T::of(&a.neg()).is_some() {
        among!(t, -x(), [a.neg()], "negation of {name}");
        among!(t, x().abs(), [a.abs()], "abs of {name}");
    }
    want_eq!(t, x().is_positive(), !a.is_neg(), "is_positive of {name}");
    want_eq!(t, x().is_negative(), a.is_neg(), "is_negative of {name}");
    Ok(())
}

fn binary<T: Back, const N: usize>(t: &mut Tally, a: &R, b: &R) -> Res {
    let name = format!("of Fixed<{}, {N}> with raw values {a:?} and {b:?}", T::name());
    let x = || raw::<T, N>(a).unwrap();
    let y = || raw::<T, N>(b).unwrap();
    t.state();
    want_eq!(t, x() == y(), a == b, "== {name}");
    want_eq!(t, x().partial_cmp(&y()), Some(a.cmp(b)), "partial_cmp {name}");
    want_eq!(t, x().cmp(&y()), a.cmp(b), "cmp {name}");
    want_eq!(t, (x() < y(), x() <= y(), x() > y(), x() >= y()), (a < b, a <= b, a > b, a >= b), "< <= > >= {name}");
    among!(t, x().max(y()), [a.max(b).clone()], "max {name}");
    among!(t, x().min(y()), [a.min(b).clone()], "min {name}");
    let fits = |r: &R| T::of(r).is_some();
    if fits(&a.add(b)) {
        among!(t, x() + y(), [a.add(b)], "+ {name}");
    }
    if fits(&a.sub(b)) {
        among!(t, x() - y(), [a.sub(b)], "- {name}");
    }
    let one = R::pow2(N);
    let p = a.mul(b);
    if fits(&p) {
        let q = floor_div(&p, &one);
        if q.mul(&one) == p {
            among!(t, x() * y(), [q], "* {name}");
        } else {
            among!(t, x() * y(), [q.clone(), q.add(&R::from_i128(1))], "* {name}");
        }
    }
    if !b.is_zero() {
        let (q, r) = a.div_rem(b);
        if fits(&q) {
            among!(t, x() % y(), [r], "% {name}");
        }
        let s = a.mul(&one);
        let q = floor_div(&s, b);
        if fits(&s) && fits(&s.div_rem(b).0) {
            if q.mul(b) == s {
                among!(t, x() / y(), [q], "/ {name}");
            } else {
                among!(t, x() / y(), [q.clone(), q.add(&R::from_i128(1))], "/ {name}");
            }
        }
    }
    Ok(())
}

fn constants<T: Back, const N: usize>(t: &mut Tally) -> Res {
    among!(t, Fixed::<T, N>::new(), [R::zero()], "Fixed<{}, {N}>::new()", T::name());
    among!(t, Fixed::<T, N>::default(), [R::zero()], "Fixed<{}, {N}>::default()", T::name());
    among!(t, Fixed::<T, N>::zero(), [R::zero()], "Fixed<{}, {N}>::zero()", T::name());
    among!(t, Fixed::<T, N>::one(), [R::pow2(N)], "Fixed<{}, {N}>::one()", T::name());
    Ok(())
}

fn bounds<T: Back + Prim + Bounded, const N: usize>(t: &mut Tally) -> Res {
    among!(t, Fixed::<T, N>::min_value(), [T::LEAST.r()], "Fixed<{}, {N}>::min_value()", T::NAME);
    among!(t, Fixed::<T, N>::max_value(), [T::MOST.r()], "Fixed<{}, {N}>::max_value()", T::NAME);
    Ok(())
}

fn signed_bounds<T: Back + Prim + Bounded + Signed, const N: usize>(t: &mut Tally) -> Res {
    among!(t, <Fixed<T, N> as BoundedSigned>::min_positive(), [R::from_i128(1)], "Fixed<{}, {N}>::min_positive()", T::NAME);
    among!(t, <Fixed<T, N> as BoundedSigned>::max_negative(), [R::from_i128(-1)], "Fixed<{}, {N}>::max_negative()", T::NAME);
    Ok(())
}

/// Raw values around whole numbers and halves
fn raws<T: Prim>(n: usize, level: u32) -> Vec<R> {
    let mut v: Vec<R> = T::edges(level).into_iter().map(|x| x.r()).collect();
    let one = R::pow2(n);
    let half = R::pow2(n.saturating_sub(1));
    for k in [-3i128, -2, -1, 0, 1, 2, 3] {
        for d in [-1i128, 0, 1] {
            let w = one.mul(&R::from_i128(k)).add(&R::from_i128(d));
            v.push(w.add(&half));
            v.push(w);
        }
    }
    v.push(R::pow2(T::BITS).shr_floor(1).sub(&half));
    let mut v: Vec<R> = v.into_iter().filter(|r| T::fits(r)).collect();
    v = numeric_mc::alpha::dedup(v);
    v
}

macro_rules! sec {
    ($c:ident: $($t:ident ($($n:literal)*) $sig:ident)*) => {$($({
        $c.section(concat!("Fixed<", stringify!($t), ", ", stringify!($n), ">"));
        let full = <$t as Prim>::BITS == 8;
        let vals: Vec<R> = if full { <$t as Prim>::all().into_iter().map(|x| x.r()).collect() } else { raws::<$t>($n, 1 + $c.thorough as u32) };
        $c.case(|| "constants".into(), |t| {
            constants::<$t, $n>(t)?;
            bounds::<$t, $n>(t)?;
            sec!(@bounds $sig t $t $n);
            Ok(())
        });
        let un: Vec<R> = if <$t as Prim>::BITS <= 16 { <$t as Prim>::all().into_iter().map(|x| x.r()).collect() } else { raws::<$t>($n, 3) };
        for ch in un.chunks(64) {
            $c.case(|| format!("unary operations on the raw values from {:?}", ch[0]), |t| {
                for a in ch {
                    unary::<$t, $n>(t, a)?;
                    sec!(@unary $sig t $t $n a);
                }
                Ok(())
            });
        }
        for a in &vals {
            $c.case(|| format!("{a:?} with every second operand"), |t| {
                for b in &vals {
                    binary::<$t, $n>(t, a, b)?;
                }
                Ok(())
            });
        }
    })*)*};
    (@bounds s $tally:ident $t:ident $n:literal) => { signed_bounds::<$t, $n>($tally)?; };
    (@bounds u $tally:ident $t:ident $n:literal) => {};
    (@unary s $tally:ident $t:ident $n:literal $a:ident) => { signed::<$t, $n>($tally, $a)?; };
    (@unary u $tally:ident $t:ident $n:literal $a:ident) => {};
}

fn of_big<const N: usize>(c: &mut Ctx) {
    c.section(&format!("Fixed<BigInt, {N}>"));
    let mut vals = raws::<i128>(N.min(126), c.thorough as u32);
    for k in [62usize, 63, 64, 65, 126, 128, 190, 192, 256] {
        for d in [-1i128, 0, 1] {
            let v = R::pow2(k).add(&R::from_i128(d));
            vals.extend([v.neg(), v]);
        }
    }
    let vals = numeric_mc::alpha::dedup(vals);
    c.case(|| "constants".into(), |t| constants::<BigInt, N>(t));
    for a in &vals {
        c.case(|| format!("{a:?} with every second operand"), |t| {
            unary::<BigInt, N>(t, a)?;
            signed::<BigInt, N>(t, a)?;
            for b in &vals {
                binary::<BigInt, N>(t, a, b)?;
            }
            Ok(())
        });
    }
}

fn of_u<const B: usize, const N: usize>(c: &mut Ctx) {
    c.section(&format!("Fixed<U<{B}>, {N}>"));
    let bits = 8 * B;
    let mut vals: Vec<R> = Vec::new();
    if B == 1 {
        vals.extend((0..256).map(R::from_i128));
    }
    let half = R::pow2(N.saturating_sub(1));
    for k in 0..=bits {
        if bits > 72 && ![0, 1, 7, 8, 9, N, bits - N, bits / 2].iter().any(|m| k.abs_diff(*m) < 2 || bits - k == *m) {
            continue;
        }
        for d in [-1i128, 0, 1] {
            let v = R::pow2(k).add(&R::from_i128(d));
            vals.extend([v.add(&half), v.sub(&half), v]);
        }
    }
    vals.extend([3i128, 5, 10, 100, 0x55].map(R::from_i128));
    let vals: Vec<R> = numeric_mc::alpha::dedup(vals).into_iter().filter(|r| <U<B>>::of(r).is_some()).collect();
    c.case(|| "constants".into(), |t| {
        constants::<U<B>, N>(t)?;
        let most = R::pow2(bits).sub(&R::from_i128(1));
        want!(t, Fixed::<U<B>, N>::min_value() == raw::<U<B>, N>(&R::zero()).unwrap(), "min_value");
        want!(t, Fixed::<U<B>, N>::max_value() == raw::<U<B>, N>(&most).unwrap(), "max_value");
        Ok(())
    });
    for a in &vals {
        c.case(|| format!("{a:?} with every second operand"), |t| {
            unary::<U<B>, N>(t, a)?;
            for b in &vals {
                binary::<U<B>, N>(t, a, b)?;
            }
            Ok(())
        });
    }
}

fn main() {
    engine::main(|c| {
        sec! { c:
            i8 (0 1 2 3 4 5 6) s
            u8 (0 1 2 3 4 5 6 7) u
            i16 (0 1 3 7 8 9 14) s
            u16 (0 1 7 8 9 15) u
            i32 (1 8 15 16 17 30) s
            u32 (1 8 16 31) u
            i64 (1 16 31 32 33 62) s
            u64 (1 16 32 63) u
            i128 (1 32 63 64 65 126) s
            u128 (1 32 64 127) u
            isize (1 16 32 62) s
            usize (1 16 32 63) u
        }
        of_u::<1, 0>(c);
        of_u::<1, 3>(c);
        of_u::<1, 7>(c);
        of_u::<2, 8>(c);
        of_u::<3, 5>(c);
        of_u::<4, 16>(c);
        of_u::<8, 33>(c);
        of_u::<9, 8>(c);
        of_u::<17, 64>(c);
        of_u::<33, 200>(c);
        of_big::<0>(c);
        of_big::<1>(c);
        of_big::<16>(c);
        of_big::<63>(c);
        of_big::<64>(c);
        of_big::<65>(c);
        of_big::<130>(c);
    });
}
