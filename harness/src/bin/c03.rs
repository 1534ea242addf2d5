use numeric_mc::{want, want_eq};
use numeric_ints::BigInt;
use numeric_mc::alpha::*;
use numeric_mc::big::*;
use numeric_mc::engine::{self, *};
use numeric_mc::refint::R;
use numeric_traits::class::Signed;
use numeric_traits::identity::{One, Zero};
use std::cmp::Ordering;

fn cmp_all(t: &mut Tally, a: &BigInt, ra: &R, b: &BigInt, rb: &R, how: &dyn Fn() -> String) -> Res {
    let want = ra.cmp(rb);
    macro_rules! w {
        ($got:expr, $want:expr, $op:expr) => {
            want_eq!(t, $got, $want, "{} of {ra:?} and {rb:?} ({})", $op, how())
        };
    }
    w!(a == b, want == Ordering::Equal, "==");
    w!(a != b, want != Ordering::Equal, "!=");
    w!(a < b, want == Ordering::Less, "<");
    w!(a <= b, want != Ordering::Greater, "<=");
    w!(a > b, want == Ordering::Greater, ">");
    w!(a >= b, want != Ordering::Less, ">=");
    w!(a.cmp(b), want, "cmp");
    w!(a.partial_cmp(b), Some(want), "partial_cmp");
    t.state();
    Ok(())
}

fn min_max(t: &mut Tally, a: &BigInt, ra: &R, b: &BigInt, rb: &R) -> Res {
    let (lo, hi) = if ra <= rb { (ra, rb) } else { (rb, ra) };
    expect(&a.clone().min(b.clone()), lo, || format!("min of {ra:?} and {rb:?}"))?;
    expect(&a.clone().max(b.clone()), hi, || format!("max of {ra:?} and {rb:?}"))?;
    t.ops += 2;
    if lo <= hi {
        for (v, rv) in [(a, ra), (b, rb)] {
            expect(&v.clone().clamp(mk(lo), mk(hi)), rv, || format!("clamp of {rv:?} to {lo:?}..{hi:?}"))?;
            t.ops += 1;
        }
    }
    Ok(())
}

macro_rules! prims {
    ($t:expr, $a:expr, $ra:expr, $($ty:ty),*) => {$({
        // Bounds, the inline boundary, and the neighbours of this value in the type
        let mut vals: Vec<$ty> = vec![0, 1, <$ty>::MAX, <$ty>::MIN, <$ty>::MAX - 1, <$ty>::MIN + 1,
            <$ty>::MAX / 2, <$ty>::MAX / 2 + 1, <$ty>::MIN / 2, (0 as $ty).wrapping_sub(1), 100,
            (0 as $ty).wrapping_sub(100), (1u128 << 62) as $ty, ((1u128 << 62) - 1) as $ty, (1u128 << 63) as $ty,
            (1u128 << 64) as $ty, ((1u128 << 64) - 1) as $ty,
            (-(1i128 << 62)) as $ty, (-(1i128 << 64)) as $ty, (1 - (1i128 << 62)) as $ty];
        let low = $ra.modulo_pow2(128).to_u128().unwrap();
        for d in [0u128, 1, u128::MAX] {
            vals.push(low.wrapping_add(d) as $ty);
            vals.push(0u128.wrapping_sub(low.wrapping_add(d)) as $ty);
        }
        vals.sort();
        vals.dedup();
        for p in vals {
            let rp = if <$ty>::MIN != 0 { R::from_i128(p as i128) } else { R::from_u128(p as u128) };
            let want = $ra.cmp(&rp);
            macro_rules! w {
                ($got:expr, $want:expr, $op:expr) => {
                    want_eq!($t, $got, $want, "{:?} {} {p}{}", $ra, $op, stringify!($ty))
                };
            }
            w!($a == p, want == Ordering::Equal, "==");
            w!($a != p, want != Ordering::Equal, "!=");
            w!($a < p, want == Ordering::Less, "<");
            w!($a <= p, want != Ordering::Greater, "<=");
            w!($a > p, want == Ordering::Greater, ">");
            w!($a >= p, want != Ordering::Less, ">=");
            w!($a.partial_cmp(&p), Some(want), "partial_cmp");
            $t.state();
        }
    })*};
}

/// The same value produced in many ways
fn routes(r: &R) -> Vec<(&'static str, BigInt)> {
    let x = mk(r);
    let z = BigInt::from(0);
    let big = mk(&R::from_limbs(false, &[7, u64::MAX, 0, 9]));
    let nbig = -&big;
    let mut out = vec![("constructed", x.clone())];
    out.push(("clone", x.clone()));
    out.push(("+ 0", &x + &z));
    out.push(("0 +", &z + &x));
    out.push(("- 0", &x - &z));
    out.push(("0 - -", &z - &-&x));
    out.push(("double negation", -(-x.clone())));
    out.push(("(x + big) - big", (&x + &big) - &big));
    out.push(("(x - big) + big", (&x - &big) + &big));
    out.push(("(x + nbig) - nbig", (&x + &nbig) - &nbig));
    out.push(("big - (big - x)", &big - (&big - &x)));
    out.push(("* 1", &x * BigInt::from(1)));
    out.push(("* -1 * -1", &x * BigInt::from(-1) * BigInt::from(-1)));
    out.push(("* big / big", (&x * &big) / &big));
    out.push(("* nbig / nbig", (&x * &nbig) / &nbig));
    out.push(("<< 64 >> 64", (&x << BigInt::from(64)) >> BigInt::from(64)));
    out.push(("<< 3 >> 3", (&x << BigInt::from(3)) >> BigInt::from(3)));
    out.push(("(x<<300) / 2^300", (&x << BigInt::from(300)) / mk(&R::pow2(300))));
    let huge = mk(&R::pow2(3000));
    out.push(("% 2^3000", &x % &huge));
    out.push(("& -1", &x & BigInt::from(-1)));
    out.push(("| 0", &x | &z));
    out.push(("^ big ^ big", (&x ^ &big) ^ &big));
    out.push(("!!", !(!x.clone())));
    out.push(("abs with sign", if r.is_neg() { -x.clone().abs() } else { x.clone().abs() }));
    let mut y = x.clone();
    y += &big;
    y -= &big;
    out.push(("+= big, -= big", y));
    let mut y = x.clone();
    y *= -3;
    y /= -3;
    out.push(("*= -3, /= -3", y));
    out
}

/// More than one block of the store
const STORED: u64 = 36;

fn main() {
    engine::main(|c| {
        c.section("pairs");
        let vals = signed(&magnitudes(if c.thorough { 2 } else { 1 }));
        for ra in &vals {
            c.case(
                || format!("a = {ra:?}, every b of {} values", vals.len()),
                |t| {
                    let a = mk(ra);
                    for rb in &vals {
                        let b = mk(rb);
                        cmp_all(t, &a, ra, &b, rb, &|| "constructed".into())?;
                    }
                    want_eq!(t, a.is_negative(), ra.is_neg(), "is_negative of {ra:?}");
                    want_eq!(t, a.is_positive(), !ra.is_neg(), "is_positive of {ra:?}");
                    want_eq!(t, a.is_zero(), ra.is_zero(), "is_zero of {ra:?}");
                    want_eq!(t, a.is_one(), *ra == R::from_u128(1), "is_one of {ra:?}");
                    want_eq!(t, a == BigInt::from(0), ra.is_zero(), "{ra:?} == BigInt::from(0)");
                    want_eq!(t, a == BigInt::zero(), ra.is_zero(), "{ra:?} == BigInt::zero()");
                    want_eq!(t, a == BigInt::new(), ra.is_zero(), "{ra:?} == BigInt::new()");
                    want_eq!(t, a == BigInt::default(), ra.is_zero(), "{ra:?} == BigInt::default()");
                    want_eq!(t, a == BigInt::one(), *ra == R::from_u128(1), "{ra:?} == BigInt::one()");
                    Ok(())
                },
            );
        }

        // Differences in a single limb of long values, at every limb position
        c.section("one differing limb");
        let lens: &[usize] = if c.thorough { &[2, 3, 4, 5, 6, 8, 9, 12, 17, 33] } else { &[2, 3, 4, 5, 8, 9] };
        for &len in lens {
            for (pi, base) in patterns(len).into_iter().enumerate() {
                c.case(
                    || format!("length {len}, base pattern {pi}: every limb changed to every alphabet limb, both signs"),
                    |t| {
                        let rb = R::from_limbs(false, &base);
                        for neg in [false, true] {
                            let rb = if neg { rb.neg() } else { rb.clone() };
                            let b = mk(&rb);
                            for i in 0..len {
                                for l in LIMBS {
                                    let mut v = base.clone();
                                    v[i] = l;
                                    let ra = R::from_limbs(neg, &v);
                                    let a = mk(&ra);
                                    cmp_all(t, &a, &ra, &b, &rb, &|| format!("limb {i} changed"))?;
                                    cmp_all(t, &b, &rb, &a, &ra, &|| format!("limb {i} changed"))?;
                                }
                            }
                        }
                        Ok(())
                    },
                );
            }
        }

        // Every limb count, the same value with each single limb changed, and every pair of counts
        c.section("lengths");
        let th = c.thorough;
        for la in all_lengths(th) {
            c.case(
                || format!("{la} limbs: against every limb count, and with each limb changed"),
                |t| {
                    for ra in of_length(la) {
                        let a = mk(&ra);
                        let na = -&a;
                        let nra = ra.neg();
                        for i in 0..la {
                            for d in [1u64, 1 << 63] {
                                let mut v = ra.limbs();
                                v[i] ^= d;
                                let rb = R::from_limbs(false, &v);
                                let b = mk(&rb);
                                cmp_all(t, &a, &ra, &b, &rb, &|| format!("limb {i} changed"))?;
                                cmp_all(t, &-b, &rb.neg(), &na, &nra, &|| format!("limb {i} changed"))?;
                            }
                        }
                        for lb in partners(la, th) {
                            for rb in of_length(lb) {
                                let b = mk(&rb);
                                cmp_all(t, &a, &ra, &b, &rb, &|| "lengths".into())?;
                                cmp_all(t, &na, &nra, &b, &rb, &|| "lengths".into())?;
                                let (b, rb) = (-b, rb.neg());
                                cmp_all(t, &a, &ra, &b, &rb, &|| "lengths".into())?;
                                cmp_all(t, &na, &nra, &b, &rb, &|| "lengths".into())?;
                            }
                        }
                    }
                    Ok(())
                },
            );
        }

        c.section("thousands of limbs");
        for &la in huge_lengths(th) {
            c.case(
                || format!("{la} limbs: against other limb counts, and with one limb changed"),
                |t| {
                    for ra in of_length(la) {
                        let a = mk(&ra);
                        let na = -&a;
                        let nra = ra.neg();
                        for i in [0, 1, 254, 255, 256, 257, 500, la - 257, la - 256, la - 255, la - 2, la - 1] {
                            let mut v = ra.limbs();
                            v[i] ^= 2;
                            let rb = R::from_limbs(false, &v);
                            let b = mk(&rb);
                            cmp_all(t, &a, &ra, &b, &rb, &|| format!("limb {i} changed"))?;
                            cmp_all(t, &-b, &rb.neg(), &na, &nra, &|| format!("limb {i} changed"))?;
                        }
                        for lb in [1, 2, la - 256, la - 1, la, la + 1] {
                            let rb = &pattern_of(lb, 3);
                            let b = mk(rb);
                            cmp_all(t, &a, &ra, &b, rb, &|| "lengths".into())?;
                            cmp_all(t, &na, &nra, &-b, &rb.neg(), &|| "lengths".into())?;
                        }
                    }
                    Ok(())
                },
            );
        }

        c.section("min, max, clamp");
        let small = signed(&magnitudes(0));
        for ra in &small {
            c.case(
                || format!("a = {ra:?}, every b"),
                |t| {
                    let a = mk(ra);
                    for rb in &small {
                        let b = mk(rb);
                        min_max(t, &a, ra, &b, rb)?;
                    }
                    Ok(())
                },
            );
        }

        c.section("small values that equal the indices of stored ones");
        for k in 0..STORED as usize {
            c.case(
                || format!("stored value {k} of {STORED} with every small value"),
                |t| {
                    let stored = stored(STORED);
                    let (a, ra) = &stored[k];
                    for rb in near_indices(STORED) {
                        let b = mk(&rb);
                        cmp_all(t, a, ra, &b, &rb, &|| "stored and small".into())?;
                        cmp_all(t, &b, &rb, a, ra, &|| "small and stored".into())?;
                        min_max(t, a, ra, &b, &rb)?;
                    }
                    for (x, r) in &stored {
                        expect(x, r, || format!("stored value {r:?} changed"))?;
                    }
                    Ok(())
                },
            );
        }

        c.section("values from different operations");
        let from = signed(&magnitudes(if c.thorough { 1 } else { 0 }));
        let against: Vec<R> = small.iter().step_by(if c.thorough { 1 } else { 4 }).cloned().collect();
        for r in &from {
            c.case(
                || format!("{r:?} produced in every way, compared pairwise and with its neighbours"),
                |t| {
                    let rs = routes(r);
                    for (n, v) in &rs {
                        expect(v, r, || format!("{r:?} produced by {n}"))?;
                        want_eq!(t, v.is_zero(), r.is_zero(), "is_zero of {r:?} produced by {n}");
                        want_eq!(t, v.is_negative(), r.is_neg(), "is_negative of {r:?} produced by {n}");
                        want_eq!(t, v.is_positive(), !r.is_neg(), "is_positive of {r:?} produced by {n}");
                        want_eq!(t, *v == 0, r.is_zero(), "== 0 of {r:?} produced by {n}");
                        for (m, w) in &rs {
                            cmp_all(t, v, r, w, r, &|| format!("{n} vs {m}"))?;
                        }
                    }
                    for d in [1, -1] {
                        let s = r.add(&R::from_i128(d));
                        let b = mk(&s);
                        for (n, v) in &rs {
                            cmp_all(t, v, r, &b, &s, &|| format!("{n} vs neighbour"))?;
                            cmp_all(t, &b, &s, v, r, &|| format!("neighbour vs {n}"))?;
                        }
                    }
                    for s in &against {
                        let b = mk(s);
                        for (n, v) in &rs {
                            cmp_all(t, v, r, &b, s, &|| format!("{n} vs constructed"))?;
                        }
                    }
                    Ok(())
                },
            );
        }

        c.section("zero from every operation");
        for r in &from {
            c.case(
                || format!("zeros from {r:?}"),
                |t| {
                    let x = mk(r);
                    let z = BigInt::from(0);
                    let zero = R::zero();
                    let mut zs = vec![
                        ("x - x", &x - &x),
                        ("x + -x", &x + &-&x),
                        ("-x + x", -&x + &x),
                        ("x * 0", &x * &z),
                        ("0 * x", &z * &x),
                        ("x * -0", &x * -&z),
                        ("x >> many, abs", x.clone().abs() >> BigInt::from(100_000)),
                        ("x ^ x", &x ^ &x),
                        ("x & 0", &x & &z),
                        ("x & !x", &x & !x.clone()),
                        ("0 << 100", &z << BigInt::from(100)),
                        ("!(x | !x)", !(&x | !x.clone())),
                    ];
                    if !r.is_zero() {
                        zs.push(("0 / x", &z / &x));
                        zs.push(("0 % x", &z % &x));
                        zs.push(("x % x", &x % &x));
                        zs.push(("-x % x", -&x % &x));
                        zs.push(("x / (2x)", &x / (&x * BigInt::from(2))));
                        zs.push(("x / (-2x)", &x / (&x * BigInt::from(-2))));
                    }
                    let n = zs.len();
                    for i in 0..n {
                        let neg = -&zs[i].1;
                        zs.push(("negated zero", neg));
                    }
                    for (n, v) in &zs {
                        expect(v, &zero, || format!("{n}, x = {r:?}"))?;
                        want!(t, v.is_zero(), "{n} is not is_zero, x = {r:?}");
                        want!(t, !v.is_negative(), "{n} is negative, x = {r:?}");
                        want!(t, v.is_positive(), "{n} is not >= 0, x = {r:?}");
                        cmp_all(t, v, &zero, &z, &zero, &|| n.to_string())?;
                        cmp_all(t, &z, &zero, v, &zero, &|| n.to_string())?;
                        cmp_all(t, v, &zero, &x, r, &|| n.to_string())?;
                        want!(t, *v == 0u8 && *v == 0i128 && !(*v < 0) && !(*v > 0), "{n} against 0, x = {r:?}");
                    }
                    Ok(())
                },
            );
        }

        c.section("primitives");
        for ra in &vals {
            c.case(
                || format!("{ra:?} against primitives"),
                |t| {
                    let a = mk(ra);
                    prims!(t, a, ra, u8, i8, u16, i16, u32, i32, u64, i64, u128, i128, usize, isize);
                    Ok(())
                },
            );
        }
    });
}
