use numeric_ints::U;
use numeric_mc::alpha::*;
use numeric_mc::engine::{self, *};
use numeric_mc::refint::R;
use numeric_mc::{want, want_eq};
use numeric_traits::class::Bounded;
use numeric_traits::identity::{One, Zero};
use std::cmp::Ordering;

fn u<const N: usize>(b: &[u8]) -> U<N> {
    U::from_le_bytes(b.try_into().unwrap())
}

fn pair<const N: usize>(t: &mut Tally, ba: &[u8], ra: &R, bb: &[u8], rb: &R) -> Res {
    let (a, b) = (u::<N>(ba), u::<N>(bb));
    t.state();
    let ord = ra.cmp(rb);
    macro_rules! w {
        ($got:expr, $want:expr, $op:expr) => {
            want_eq!(t, $got, $want, "U<{N}> {ra:?} {} {rb:?}", $op)
        };
    }
    w!(a == b, ord == Ordering::Equal, "==");
    w!(a != b, ord != Ordering::Equal, "!=");
    w!(a < b, ord == Ordering::Less, "<");
    w!(a <= b, ord != Ordering::Greater, "<=");
    w!(a > b, ord == Ordering::Greater, ">");
    w!(a >= b, ord != Ordering::Less, ">=");
    w!(a.cmp(&b), ord, "cmp");
    w!(a.partial_cmp(&b), Some(ord), "partial_cmp");
    w!(a.min(b).to_le_bytes(), if ord == Ordering::Less { a } else { b }.to_le_bytes(), "min");
    w!(a.max(b).to_le_bytes(), if ord == Ordering::Less { b } else { a }.to_le_bytes(), "max");
    let zip = |f: fn(u8, u8) -> u8| -> Vec<u8> { ba.iter().zip(bb).map(|(x, y)| f(*x, *y)).collect() };
    w!((a & b).to_le_bytes().to_vec(), zip(|x, y| x & y), "&");
    w!((a | b).to_le_bytes().to_vec(), zip(|x, y| x | y), "|");
    w!((a ^ b).to_le_bytes().to_vec(), zip(|x, y| x ^ y), "^");
    Ok(())
}

fn one<const N: usize>(t: &mut Tally, ba: &[u8], ra: &R) -> Res {
    let a = u::<N>(ba);
    let bits = 8 * N;
    want_eq!(t, (!a).to_le_bytes().to_vec(), ba.iter().map(|b| !b).collect::<Vec<_>>(), "U<{N}> !{ra:?}");
    want_eq!(t, a.is_zero(), ra.is_zero(), "U<{N}> is_zero {ra:?}");
    want_eq!(t, a.is_one(), *ra == R::from_u128(1), "U<{N}> is_one {ra:?}");
    let shl = |k: usize| ra.shl(k).modulo_pow2(bits).bytes_le(N);
    let shr = |k: usize| ra.shr_floor(k).bytes_le(N);
    for k in 0..bits {
        want_eq!(t, (a << k).to_le_bytes().to_vec(), shl(k), "U<{N}> {ra:?} << {k}");
        want_eq!(t, (a >> k).to_le_bytes().to_vec(), shr(k), "U<{N}> {ra:?} >> {k}");
        // The distance as a U<N>, where it fits
        if N > 1 || k < 256 {
            let uk = u::<N>(&R::from_u128(k as u128).bytes_le(N));
            want_eq!(t, (a << uk).to_le_bytes().to_vec(), shl(k), "U<{N}> {ra:?} << U({k})");
            want_eq!(t, (a >> uk).to_le_bytes().to_vec(), shr(k), "U<{N}> {ra:?} >> U({k})");
        }
        t.state();
    }
    Ok(())
}

fn far<const N: usize>(t: &mut Tally, ba: &[u8], ra: &R) -> Res {
    let a = u::<N>(ba);
    let bits = 8 * N;
    let shl = |k: usize| ra.shl(k).modulo_pow2(bits).bytes_le(N);
    let shr = |k: usize| ra.shr_floor(k).bytes_le(N);
    let mut ks: Vec<usize> = (bits + 1..bits + 10).collect();
    ks.extend([2 * bits - 1, 2 * bits, 2 * bits + 1, 3 * bits + 5, 255, 256, 65_535, 1 << 20, 1 << 32, (1 << 32) + 1, 1 << 63, usize::MAX - 1, usize::MAX]);
    ks.push(bits);
    for k in ks {
        if k < bits || (k == bits && CHECKED) {
            continue;
        }
        let uk = (R::from_u128(k as u128).bit_len() <= bits).then(|| u::<N>(&R::from_u128(k as u128).bytes_le(N)));
        if CHECKED {
            must_panic(|| format!("U<{N}> {ra:?} << {k}"), || a << k)?;
            must_panic(|| format!("U<{N}> {ra:?} >> {k}"), || a >> k)?;
            t.ops += 2;
            if let Some(uk) = uk {
                must_panic(|| format!("U<{N}> {ra:?} << U({k})"), || a << uk)?;
                must_panic(|| format!("U<{N}> {ra:?} >> U({k})"), || a >> uk)?;
                t.ops += 2;
            }
        } else {
            let m = k % bits;
            want_eq!(t, (a << k).to_le_bytes().to_vec(), shl(m), "U<{N}> {ra:?} << {k}");
            want_eq!(t, (a >> k).to_le_bytes().to_vec(), shr(m), "U<{N}> {ra:?} >> {k}");
            if let Some(uk) = uk {
                want_eq!(t, (a << uk).to_le_bytes().to_vec(), shl(m), "U<{N}> {ra:?} << U({k})");
                want_eq!(t, (a >> uk).to_le_bytes().to_vec(), shr(m), "U<{N}> {ra:?} >> U({k})");
            }
        }
        t.state();
    }
    // Distances that only a U<N> holds
    for (top, low) in [(64usize, 0u128), (64, 1), (64, bits as u128 - 1), (64, bits as u128), (65, 3), (72, 5), (100, 0), (128, 9), (8 * N - 1, 0), (8 * N - 1, 7), (8 * N, 0)] {
        if bits <= 64 || top > bits {
            continue;
        }
        let rk = if top == bits { R::pow2(bits).sub(&R::from_u128(1)) } else { R::pow2(top).add(&R::from_u128(low)) };
        let uk = u::<N>(&rk.bytes_le(N));
        if CHECKED {
            must_panic(|| format!("U<{N}> {ra:?} << U({rk:?})"), || a << uk)?;
            must_panic(|| format!("U<{N}> {ra:?} >> U({rk:?})"), || a >> uk)?;
            t.ops += 2;
        } else {
            let m = rk.div_rem(&R::from_u128(bits as u128)).1.to_u128().unwrap() as usize;
            want_eq!(t, (a << uk).to_le_bytes().to_vec(), shl(m), "U<{N}> {ra:?} << U({rk:?})");
            want_eq!(t, (a >> uk).to_le_bytes().to_vec(), shr(m), "U<{N}> {ra:?} >> U({rk:?})");
        }
        t.state();
    }
    Ok(())
}

fn width<const N: usize>(c: &mut Ctx, level: u32) {
    let all: Vec<(Vec<u8>, R)> = byte_alpha(N, level).into_iter().map(|b| (b.clone(), R::from_bytes_le(false, &b))).collect();
    c.section(&format!("U<{N}> order and bitwise"));
    for (ba, ra) in &all {
        c.case(
            || format!("U<{N}> {ra:?} with each of {} values", all.len()),
            |t| all.iter().try_for_each(|(bb, rb)| pair::<N>(t, ba, ra, bb, rb)),
        );
    }
    c.section(&format!("U<{N}> shifts"));
    for (ba, ra) in &all {
        c.case(|| format!("U<{N}> {ra:?} by every distance"), |t| one::<N>(t, ba, ra));
    }
    c.section(&format!("U<{N}> far shifts"));
    for (ba, ra) in all.iter().step_by(if c.thorough { 1 } else { 7 }) {
        c.case(|| format!("U<{N}> {ra:?} by distances past the width"), |t| far::<N>(t, ba, ra));
    }
    c.section(&format!("U<{N}> constants"));
    c.case(
        || format!("constants of U<{N}>"),
        |t| {
            let mut one = [0; N];
            one[0] = 1;
            want_eq!(t, U::<N>::zero().to_le_bytes(), [0; N], "zero");
            want_eq!(t, U::<N>::one().to_le_bytes(), one, "one");
            want_eq!(t, U::<N>::min_value().to_le_bytes(), [0; N], "min_value");
            want_eq!(t, U::<N>::max_value().to_le_bytes(), [255; N], "max_value");
            want_eq!(t, U::<N>::new().to_le_bytes(), [0; N], "new");
            want_eq!(t, U::<N>::default().to_le_bytes(), [0; N], "default");
            want!(t, U::<N>::min_value() < U::one() && U::<N>::one() < U::max_value(), "order of constants");
            Ok(())
        },
    );
}

fn main() {
    engine::main(|c| {
        width::<1>(c, 1);
        let l = u32::from(c.thorough);
        width::<2>(c, l);
        width::<3>(c, l);
        width::<4>(c, l);
        width::<5>(c, l);
        width::<6>(c, l);
        width::<7>(c, l);
        width::<8>(c, l);
        width::<9>(c, l);
        width::<12>(c, l);
        width::<15>(c, l);
        width::<16>(c, l);
        width::<17>(c, l);
        width::<24>(c, 0);
        width::<31>(c, 0);
        width::<32>(c, 0);
        width::<33>(c, 0);
        if c.thorough {
            width::<10>(c, 0);
            width::<11>(c, 0);
            width::<13>(c, 0);
            width::<20>(c, 0);
            width::<40>(c, 0);
            width::<64>(c, 0);
        }
        // The rest of the widths, with fewer values
        macro_rules! widths {
            ($($n:literal)*) => {$( width::<$n>(c, FEW); )*};
        }
        widths!(10 11 13 14 18 19 20 21 22 23 25 28 34 36 40 48 63 64 65 127 128 129 255 256 257);
        c.section("U<2> every value");
        let few: Vec<(Vec<u8>, R)> = byte_alpha(2, 0).into_iter().map(|b| (b.clone(), R::from_bytes_le(false, &b))).collect();
        for hi in 0..=255u8 {
            c.case(
                || format!("U<2> values with high byte {hi}"),
                |t| {
                    for lo in 0..=255u8 {
                        let ba = [lo, hi];
                        let ra = R::from_bytes_le(false, &ba);
                        one::<2>(t, &ba, &ra)?;
                        for (bb, rb) in &few {
                            pair::<2>(t, &ba, &ra, bb, rb)?;
                        }
                    }
                    Ok(())
                },
            );
        }
    });
}
