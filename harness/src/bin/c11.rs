use numeric_ints::U;
use numeric_mc::alpha::*;
use numeric_mc::engine::{self, *};
use numeric_mc::refint::R;
use numeric_mc::want_eq;
use numeric_traits::identity::{One, Zero};
use numeric_traits::ops::checked::{CheckedAdd, CheckedDiv, CheckedMul, CheckedSub};
use numeric_traits::ops::saturating::{SaturatingAdd, SaturatingMul, SaturatingSub};
use numeric_traits::ops::wrapping::{WrappingAdd, WrappingSub};
use numeric_traits::ops::Pow;

fn u<const N: usize>(b: &[u8]) -> U<N> {
    U::from_le_bytes(b.try_into().unwrap())
}

fn pair<const N: usize>(t: &mut Tally, ba: &[u8], ra: &R, bb: &[u8], rb: &R) -> Res {
    let (a, b) = (u::<N>(ba), u::<N>(bb));
    let bits = 8 * N;
    let bytes = |r: &R| -> [u8; N] { r.bytes_le(N).try_into().unwrap() };
    let max = [0xFF; N];
    t.state();
    macro_rules! arith {
        ($exact:expr, $op:tt, $checked:ident, $sat:ident, $clamp:expr) => {{
            let exact = $exact;
            let fits = !exact.is_neg() && exact.bit_len() <= bits;
            let wrapped = bytes(&exact.modulo_pow2(bits));
            let want = fits.then_some(wrapped);
            want_eq!(t, a.$checked(b).map(U::to_le_bytes), want, "U<{N}> {ra:?} {} {rb:?}", stringify!($checked));
            want_eq!(t, a.$sat(b).to_le_bytes(), if fits { wrapped } else { $clamp }, "U<{N}> {ra:?} {} {rb:?}", stringify!($sat));
            if fits || !CHECKED {
                want_eq!(t, (a $op b).to_le_bytes(), wrapped, "U<{N}> {ra:?} {} {rb:?}", stringify!($op));
            } else {
                must_panic(|| format!("U<{N}> {ra:?} {} {rb:?}", stringify!($op)), || a $op b)?;
                t.op();
            }
            wrapped
        }};
    }
    let w = arith!(ra.add(rb), +, checked_add, saturating_add, max);
    want_eq!(t, a.wrapping_add(b).to_le_bytes(), w, "U<{N}> {ra:?} wrapping_add {rb:?}");
    let w = arith!(ra.sub(rb), -, checked_sub, saturating_sub, [0; N]);
    want_eq!(t, a.wrapping_sub(b).to_le_bytes(), w, "U<{N}> {ra:?} wrapping_sub {rb:?}");
    arith!(ra.mul(rb), *, checked_mul, saturating_mul, max);
    if rb.is_zero() {
        want_eq!(t, a.checked_div(b).map(U::to_le_bytes), None, "U<{N}> {ra:?} checked_div 0");
        must_panic(|| format!("U<{N}> {ra:?} / 0"), || a / b)?;
        must_panic(|| format!("U<{N}> {ra:?} % 0"), || a % b)?;
        t.ops += 2;
    } else {
        let (q, r) = ra.div_rem(rb);
        want_eq!(t, a.checked_div(b).map(U::to_le_bytes), Some(bytes(&q)), "U<{N}> {ra:?} checked_div {rb:?}");
        want_eq!(t, (a / b).to_le_bytes(), bytes(&q), "U<{N}> {ra:?} / {rb:?}");
        want_eq!(t, (a % b).to_le_bytes(), bytes(&r), "U<{N}> {ra:?} % {rb:?}");
    }
    Ok(())
}

fn pow<const N: usize>(t: &mut Tally, ba: &[u8], ra: &R) -> Res {
    let a = u::<N>(ba);
    let bits = 8 * N;
    let bytes = |r: &R| -> [u8; N] { r.bytes_le(N).try_into().unwrap() };
    // Products over an iterator
    let mut list = Vec::new();
    let mut want = R::from_u128(1);
    for m in [ra.clone(), R::from_u128(1), R::from_u128(3), R::zero()] {
        want_eq!(t, list.iter().copied().product::<U<N>>().to_le_bytes(), bytes(&want), "product of {} U<{N}>, the first {ra:?}", list.len());
        want = want.mul(&m);
        list.push(u::<N>(&m.bytes_le(N)));
        if want.bit_len() > bits {
            break;
        }
    }
    let mut want = R::from_u128(1);
    for e in 0..=300u32 {
        if want.bit_len() > bits || (N == 1 && e > 255) {
            break;
        }
        let eb = R::from_u128(e as u128).bytes_le(N);
        want_eq!(t, a.pow(u::<N>(&eb)).to_le_bytes(), bytes(&want), "U<{N}> {ra:?} pow {e}");
        t.state();
        want = want.mul(ra);
    }
    if ra.bit_len() <= 1 {
        for e in byte_alpha(N, 0) {
            let want = if R::from_bytes_le(false, &e).is_zero() { U::<N>::one() } else { a };
            want_eq!(t, a.pow(u::<N>(&e)).to_le_bytes(), want.to_le_bytes(), "U<{N}> {ra:?} pow {:?}", R::from_bytes_le(false, &e));
        }
    }
    Ok(())
}

fn width<const N: usize>(c: &mut Ctx, level: u32) {
    let all: Vec<(Vec<u8>, R)> = byte_alpha(N, level).into_iter().map(|b| (b.clone(), R::from_bytes_le(false, &b))).collect();
    c.section(&format!("U<{N}> pairs"));
    for (ba, ra) in &all {
        c.case(
            || format!("U<{N}> {ra:?} with each of {} values", all.len()),
            |t| all.iter().try_for_each(|(bb, rb)| pair::<N>(t, ba, ra, bb, rb)),
        );
    }
    c.section(&format!("U<{N}> powers"));
    for (ba, ra) in &all {
        c.case(|| format!("U<{N}> {ra:?} to every power that fits"), |t| pow::<N>(t, ba, ra));
    }
}

fn main() {
    engine::main(|c| {
        width::<1>(c, 1);
        let l = u32::from(c.thorough);
        width::<2>(c, l);
        width::<3>(c, l);
        width::<4>(c, l);
        width::<5>(c, l);
        width::<6>(c, l);
        width::<7>(c, l);
        width::<8>(c, l);
        width::<9>(c, l);
        width::<12>(c, l);
        width::<15>(c, l);
        width::<16>(c, l);
        width::<17>(c, l);
        width::<24>(c, 0);
        width::<32>(c, 0);
        if c.thorough {
            width::<10>(c, 0);
            width::<11>(c, 0);
            width::<13>(c, 0);
            width::<20>(c, 0);
            width::<33>(c, 0);
            width::<64>(c, 0);
        }
        // The rest of the widths, with fewer values
        macro_rules! widths {
            ($($n:literal)*) => {$( width::<$n>(c, FEW); )*};
        }
        widths!(10 11 13 14 18 19 20 21 22 23 25 28 31 33 34 36 40 48 63 64 65 128 257);
        // Every two-byte value against a smaller set
        c.section("U<2> every value");
        let few: Vec<(Vec<u8>, R)> = byte_alpha(2, 0)
            .into_iter()
            .step_by(if c.thorough { 1 } else { 6 })
            .map(|b| (b.clone(), R::from_bytes_le(false, &b)))
            .collect();
        for hi in 0..=255u8 {
            c.case(
                || format!("U<2> values with high byte {hi} against {} values", few.len()),
                |t| {
                    for lo in 0..=255u8 {
                        let ba = [lo, hi];
                        let ra = R::from_bytes_le(false, &ba);
                        for (bb, rb) in &few {
                            pair::<2>(t, &ba, &ra, bb, rb)?;
                        }
                    }
                    Ok(())
                },
            );
        }
        c.section("identities");
        c.case(
            || "zero and one".into(),
            |t| {
                want_eq!(t, U::<3>::zero().to_le_bytes(), [0, 0, 0], "zero");
                want_eq!(t, U::<3>::one().to_le_bytes(), [1, 0, 0], "one");
                Ok(())
            },
        );
    });
}
