use numeric_ints::I;
use numeric_mc::alpha::*;
use numeric_mc::engine::{self, *};
use numeric_mc::refint::R;
use numeric_mc::{want, want_eq};
use numeric_traits::class::{Bounded, BoundedSigned, Signed};
use numeric_traits::identity::{One, Zero};
use std::cmp::Ordering;

/// `I` has no public constructor from bytes; it is a transparent array of N bytes
fn mk<const N: usize>(b: &[u8]) -> I<N> {
    let a: [u8; N] = b.try_into().unwrap();
    // SAFETY: Same size, all bit patterns are valid
    unsafe { std::mem::transmute_copy(&a) }
}

fn bytes<const N: usize>(v: I<N>) -> Vec<u8> {
    // SAFETY: As above
    let a: [u8; N] = unsafe { std::mem::transmute_copy(&v) };
    a.to_vec()
}

fn pair<const N: usize>(t: &mut Tally, ba: &[u8], ra: &R, bb: &[u8], rb: &R) -> Res {
    let (a, b) = (mk::<N>(ba), mk::<N>(bb));
    let bits = 8 * N;
    let wrap = |r: &R| r.modulo_pow2(bits).bytes_le(N);
    t.state();
    macro_rules! w {
        ($got:expr, $want:expr, $op:expr) => {
            want_eq!(t, $got, $want, "I<{N}> {ra:?} {} {rb:?}", $op)
        };
    }
    w!(bytes(a + b), wrap(&ra.add(rb)), "+");
    w!(bytes(a - b), wrap(&ra.sub(rb)), "-");
    w!(bytes(a * b), wrap(&ra.mul(rb)), "*");
    if rb.is_zero() {
        must_panic(|| format!("I<{N}> {ra:?} / 0"), || a / b)?;
        must_panic(|| format!("I<{N}> {ra:?} % 0"), || a % b)?;
        t.ops += 2;
    } else {
        let (q, r) = ra.div_rem(rb);
        w!(bytes(a / b), wrap(&q), "/");
        w!(bytes(a % b), wrap(&r), "%");
    }
    let ord = ra.cmp(rb);
    w!(a == b, ord == Ordering::Equal, "==");
    w!(a != b, ord != Ordering::Equal, "!=");
    w!(a < b, ord == Ordering::Less, "<");
    w!(a <= b, ord != Ordering::Greater, "<=");
    w!(a > b, ord == Ordering::Greater, ">");
    w!(a >= b, ord != Ordering::Less, ">=");
    w!(a.cmp(&b), ord, "cmp");
    w!(a.partial_cmp(&b), Some(ord), "partial_cmp");
    let zip = |f: fn(u8, u8) -> u8| -> Vec<u8> { ba.iter().zip(bb).map(|(x, y)| f(*x, *y)).collect() };
    w!(bytes(a & b), zip(|x, y| x & y), "&");
    w!(bytes(a | b), zip(|x, y| x | y), "|");
    w!(bytes(a ^ b), zip(|x, y| x ^ y), "^");
    Ok(())
}

fn one<const N: usize>(t: &mut Tally, ba: &[u8], ra: &R) -> Res {
    let a = mk::<N>(ba);
    let wrap = |r: &R| r.modulo_pow2(8 * N).bytes_le(N);
    want_eq!(t, bytes(-a), wrap(&ra.neg()), "I<{N}> -{ra:?}");
    want_eq!(t, bytes(!a), wrap(&ra.neg().sub(&R::from_u128(1))), "I<{N}> !{ra:?}");
    want_eq!(t, bytes(a.abs()), wrap(&ra.abs()), "I<{N}> abs {ra:?}");
    want_eq!(t, a.is_negative(), ra.is_neg(), "I<{N}> is_negative {ra:?}");
    want_eq!(t, a.is_positive(), !ra.is_neg(), "I<{N}> is_positive {ra:?}");
    want_eq!(t, a.is_zero(), ra.is_zero(), "I<{N}> is_zero {ra:?}");
    want_eq!(t, a.is_one(), *ra == R::from_u128(1), "I<{N}> is_one {ra:?}");
    Ok(())
}

fn width<const N: usize>(c: &mut Ctx, level: u32) {
    let all: Vec<(Vec<u8>, R)> = byte_alpha(N, level).into_iter().map(|b| (b.clone(), R::from_twos_le(&b))).collect();
    c.section(&format!("I<{N}> pairs"));
    for (ba, ra) in &all {
        c.case(
            || format!("I<{N}> {ra:?} with each of {} values", all.len()),
            |t| {
                one::<N>(t, ba, ra)?;
                all.iter().try_for_each(|(bb, rb)| pair::<N>(t, ba, ra, bb, rb))
            },
        );
    }
    c.section(&format!("I<{N}> constants"));
    c.case(
        || format!("constants of I<{N}>"),
        |t| {
            let wrap = |r: R| r.modulo_pow2(8 * N).bytes_le(N);
            let one = R::from_u128(1);
            want_eq!(t, bytes(I::<N>::zero()), wrap(R::zero()), "I<{N}> zero");
            want_eq!(t, bytes(I::<N>::one()), wrap(one.clone()), "I<{N}> one");
            want_eq!(t, bytes(I::<N>::min_value()), wrap(R::pow2(8 * N - 1).neg()), "I<{N}> min_value");
            want_eq!(t, bytes(I::<N>::max_value()), wrap(R::pow2(8 * N - 1).sub(&one)), "I<{N}> max_value");
            want_eq!(t, bytes(I::<N>::min_positive()), wrap(one.clone()), "I<{N}> min_positive");
            want_eq!(t, bytes(I::<N>::max_negative()), wrap(one.neg()), "I<{N}> max_negative");
            want!(t, I::<N>::min_value() < I::max_negative(), "order");
            want!(t, I::<N>::max_negative() < I::zero(), "order");
            want!(t, I::<N>::zero() < I::min_positive(), "order");
            want!(t, I::<N>::min_positive() <= I::max_value(), "order");
            Ok(())
        },
    );
}

fn main() {
    engine::main(|c| {
        width::<1>(c, 1);
        let l = u32::from(c.thorough);
        width::<2>(c, l);
        width::<3>(c, l);
        width::<4>(c, l);
        width::<5>(c, l);
        width::<6>(c, l);
        width::<7>(c, l);
        width::<8>(c, l);
        width::<9>(c, l);
        width::<12>(c, l);
        width::<15>(c, l);
        width::<16>(c, l);
        width::<17>(c, l);
        width::<24>(c, 0);
        width::<32>(c, 0);
        if c.thorough {
            width::<10>(c, 0);
            width::<11>(c, 0);
            width::<13>(c, 0);
            width::<20>(c, 0);
            width::<33>(c, 0);
            width::<64>(c, 0);
        }
        // The rest of the widths, with fewer values
        macro_rules! widths {
            ($($n:literal)*) => {$( width::<$n>(c, FEW); )*};
        }
        widths!(10 11 13 14 18 19 20 21 22 23 25 28 31 33 34 36 40 48 63 64 65 128 257);
        c.section("I<2> every value");
        let few: Vec<(Vec<u8>, R)> = byte_alpha(2, 0)
            .into_iter()
            .step_by(if c.thorough { 1 } else { 6 })
            .map(|b| (b.clone(), R::from_twos_le(&b)))
            .collect();
        for hi in 0..=255u8 {
            c.case(
                || format!("I<2> values with high byte {hi} against {} values", few.len()),
                |t| {
                    for lo in 0..=255u8 {
                        let ba = [lo, hi];
                        let ra = R::from_twos_le(&ba);
                        one::<2>(t, &ba, &ra)?;
                        for (bb, rb) in &few {
                            pair::<2>(t, &ba, &ra, bb, rb)?;
                        }
                    }
                    Ok(())
                },
            );
        }
    });
}
