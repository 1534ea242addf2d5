use numeric_bits::algos::*;
use numeric_mc::alpha::seqs;
use numeric_mc::digits::*;
use numeric_mc::engine::{self, *};
use numeric_mc::refint::R;
use numeric_mc::{want, want_eq};

type Item<T> = (Vec<T>, R);

fn pair<T: Digit>(t: &mut Tally, (a, ra): &Item<T>, (b, rb): &Item<T>, slow: bool) -> Res {
    let ty = T::NAME;
    let bits = a.len() * T::BYTES * 8;
    t.state();
    macro_rules! grow {
        ($got:expr, $want:expr, $op:expr) => {{
            let got = $got;
            let v = value(&got);
            want_eq!(t, v, $want, "{} of {a:?} and {b:?} ({ty})", $op)
        }};
    }
    // Growing
    let sum = ra.add(rb);
    grow!(ElementAdd::add(&a[..], &b[..]), sum.clone(), "ElementAdd::add");
    let diff = ra.sub(rb);
    let (m, neg) = ElementSub::sub(&a[..], &b[..]);
    grow!(m, diff.abs(), "magnitude of ElementSub::sub");
    want_eq!(t, neg, diff.is_neg(), "sign of ElementSub::sub of {a:?} and {b:?} ({ty})");
    let prod = ra.mul(rb);
    grow!(ElementMul::mul(&a[..], &b[..]), prod.clone(), "ElementMul::mul");
    grow!(ElementBitand::bitand(&a[..], &b[..]), ra.bitop(rb, |x, y| x & y), "bitand");
    grow!(ElementBitor::bitor(&a[..], &b[..]), ra.bitop(rb, |x, y| x | y), "bitor");
    grow!(ElementBitxor::bitxor(&a[..], &b[..]), ra.bitop(rb, |x, y| x ^ y), "bitxor");
    want_eq!(t, ElementCmp::cmp(&a[..], &b[..]), ra.cmp(rb), "ElementCmp::cmp of {a:?} and {b:?} ({ty})");
    if slow {
        grow!(BitwiseAdd::add(&a[..], &b[..]), sum.clone(), "BitwiseAdd::add");
        let (m, neg) = BitwiseSub::sub(&a[..], &b[..]);
        grow!(m, diff.abs(), "magnitude of BitwiseSub::sub");
        want_eq!(t, neg, diff.is_neg(), "sign of BitwiseSub::sub of {a:?} and {b:?} ({ty})");
        grow!(BitwiseMul::mul(&a[..], b), prod.clone(), "BitwiseMul::mul");
    }
    // In place, modulo the width of the destination
    macro_rules! place {
        ($tr:ident, $over:ident, $checked:ident, $wrapping:ident, $exact:expr, $b:expr) => {{
            let exact = $exact;
            let lost = exact.is_neg() || exact.bit_len() > bits;
            let want: Vec<T> = digits(&exact.modulo_pow2(bits), a.len());
            let mut x = a.clone();
            let (out, over) = $tr::$over(&mut x[..], $b);
            want!(t, out == &want[..] && over == lost, "{}::{} of {a:?} and {b:?} ({ty}): got {out:?} {over}, expected {want:?} {lost}", stringify!($tr), stringify!($over));
            want_eq!(t, &x, &want, "destination of {}::{} of {a:?} and {b:?} ({ty})", stringify!($tr), stringify!($over));
            let mut x = a.clone();
            match $tr::$checked(&mut x[..], $b) {
                Some(out) => want!(t, !lost && out == &want[..], "{}::{} of {a:?} and {b:?} ({ty}): got {out:?}, expected {want:?}, lost {lost}", stringify!($tr), stringify!($checked)),
                None => want!(t, lost, "{}::{} of {a:?} and {b:?} ({ty}): got None, expected {want:?}", stringify!($tr), stringify!($checked)),
            }
            if !lost {
                want_eq!(t, &x, &want, "destination of {}::{} of {a:?} and {b:?} ({ty})", stringify!($tr), stringify!($checked));
            }
            let mut x = a.clone();
            let out = $tr::$wrapping(&mut x[..], $b);
            want_eq!(t, out, &want[..], "{}::{} of {a:?} and {b:?} ({ty})", stringify!($tr), stringify!($wrapping));
            want_eq!(t, &x, &want, "destination of {}::{} of {a:?} and {b:?} ({ty})", stringify!($tr), stringify!($wrapping));
        }};
    }
    place!(ElementAdd, add_overflowing, add_checked, add_wrapping, sum.clone(), &b[..]);
    place!(ElementSub, sub_overflowing, sub_checked, sub_wrapping, diff.clone(), &b[..]);
    place!(ElementMul, mul_overflowing, mul_checked, mul_wrapping, prod.clone(), b);
    if slow {
        let mut x = a.clone();
        let want: Vec<T> = digits(&sum.modulo_pow2(bits), a.len());
        let out = BitwiseAdd::add_in_place(&mut x[..], b);
        want_eq!(t, out, &want[..], "BitwiseAdd::add_in_place of {a:?} and {b:?} ({ty})");
    }
    Ok(())
}

fn div<T: Digit>(t: &mut Tally, (a, ra): &Item<T>, (b, rb): &Item<T>, element: bool) -> Res {
    let ty = T::NAME;
    t.state();
    let zeros = |n: usize| -> Vec<T> { vec![T::of(0); n] };
    if rb.is_zero() {
        must_panic(|| format!("BitwiseDiv::div_long of {a:?} by zero {b:?}"), || BitwiseDiv::div_long(&a[..], &b[..]))?;
        must_panic(|| format!("ElementDiv::div_long of {a:?} by zero {b:?}"), || ElementDiv::div_long(&a[..], &b[..]))?;
        let mut x = a.clone();
        want!(t, BitwiseDiv::div_long_checked(&mut x[..], &b[..], &mut zeros(a.len())).is_none(), "div_long_checked of {a:?} by zero {b:?} ({ty})");
        let mut x = a.clone();
        want!(t, BitwiseDiv::rem_long_checked(&mut x[..], &b[..], &mut zeros(a.len())).is_none(), "rem_long_checked of {a:?} by zero {b:?} ({ty})");
        t.ops += 2;
        return Ok(());
    }
    let (q, r) = ra.div_rem(rb);
    let (gq, gr) = BitwiseDiv::div_long(&a[..], &b[..]);
    want!(t, value(&gq) == q && value(&gr) == r, "BitwiseDiv::div_long of {a:?} by {b:?} ({ty}): got {gq:?}, {gr:?}");
    let q_digits: Vec<T> = digits(&q, a.len());
    if element && q_digits.iter().all(|d| d.val() <= 300) {
        let (gq, gr) = ElementDiv::div_long(&a[..], &b[..]);
        want!(t, value(&gq) == q && value(&gr) == r, "ElementDiv::div_long of {a:?} by {b:?} ({ty}): got {gq:?}, {gr:?}");
    }
    // In place
    let r_digits: Vec<T> = digits(&r, a.len());
    macro_rules! place {
        ($over:ident, $checked:ident, $wrapping:ident, $want:expr, $scratch:expr) => {{
            let want: &[T] = &$want;
            let mut x = a.clone();
            let (out, over) = BitwiseDiv::$over(&mut x[..], &b[..], &mut zeros($scratch));
            want!(t, out == want && !over, "{} of {a:?} by {b:?} ({ty}, scratch {}): got {out:?} {over}, expected {want:?}", stringify!($over), $scratch);
            let mut x = a.clone();
            match BitwiseDiv::$checked(&mut x[..], &b[..], &mut zeros($scratch)) {
                Some(out) => want!(t, out == want, "{} of {a:?} by {b:?} ({ty}, scratch {}): got {out:?}, expected {want:?}", stringify!($checked), $scratch),
                None => return Err(format!("{} of {a:?} by {b:?} ({ty}): got None, expected {want:?}", stringify!($checked))),
            }
            let mut x = a.clone();
            let out = BitwiseDiv::$wrapping(&mut x[..], &b[..], &mut zeros($scratch));
            want!(t, out == want, "{} of {a:?} by {b:?} ({ty}, scratch {}): got {out:?}, expected {want:?}", stringify!($wrapping), $scratch);
            want_eq!(t, &x[..], want, "destination of {} of {a:?} by {b:?} ({ty})", stringify!($wrapping));
        }};
    }
    place!(div_long_overflowing, div_long_checked, div_long_wrapping, q_digits, a.len());
    place!(rem_long_overflowing, rem_long_checked, rem_long_wrapping, r_digits, a.len());
    Ok(())
}

fn shifts<T: Digit>(t: &mut Tally, item: &Item<T>, bitwise: bool) -> Res {
    let w = T::BYTES * 8;
    let bits = item.0.len() * w;
    let mut ks: Vec<usize> = if bits <= 64 { (0..=3 * bits + 3).collect() } else { (0..=bits + 2).collect() };
    ks.extend([2 * bits, 2 * bits + 1, 3 * bits + w - 1, 4 * bits]);
    shifts_by(t, item, &ks, bitwise)
}

fn shifts_by<T: Digit>(t: &mut Tally, (a, ra): &Item<T>, ks: &[usize], bitwise: bool) -> Res {
    let ty = T::NAME;
    let bits = a.len() * T::BYTES * 8;
    for &k in ks {
        t.state();
        let l = ra.shl(k);
        let r = ra.shr_floor(k);
        want_eq!(t, value(&ElementShl::shl(&a[..], k)), l.clone(), "ElementShl::shl of {a:?} by {k} ({ty})");
        want_eq!(t, value(&ElementShr::shr(&a[..], k)), r.clone(), "ElementShr::shr of {a:?} by {k} ({ty})");
        if bitwise {
            want_eq!(t, value(&BitwiseShl::shl(&a[..], k)), l.clone(), "BitwiseShl::shl of {a:?} by {k} ({ty})");
            want_eq!(t, value(&BitwiseShr::shr(&a[..], k)), r.clone(), "BitwiseShr::shr of {a:?} by {k} ({ty})");
        }
        macro_rules! place {
            ($tr:ident, $checked:ident, $wrapping:ident, $f:expr) => {{
                let f = $f;
                let mut x = a.clone();
                let got = $tr::$checked(&mut x[..], k).map(|s| s.to_vec());
                let want: Option<Vec<T>> = (k <= bits).then(|| f(k));
                want_eq!(t, got, want.clone(), "{} of {a:?} by {k} ({ty})", stringify!($checked));
                if let Some(w) = want {
                    want_eq!(t, &x, &w, "destination of {} of {a:?} by {k} ({ty})", stringify!($checked));
                }
                let mut x = a.clone();
                let want: Vec<T> = f(k % bits);
                let got = $tr::$wrapping(&mut x[..], k).to_vec();
                want_eq!(t, got, want.clone(), "{} of {a:?} by {k} ({ty})", stringify!($wrapping));
                want_eq!(t, x, want, "destination of {} of {a:?} by {k} ({ty})", stringify!($wrapping));
            }};
        }
        place!(ElementShl, shl_checked, shl_wrapping, |k| digits::<T>(&ra.shl(k).modulo_pow2(bits), a.len()));
        place!(ElementShr, shr_checked, shr_wrapping, |k| digits::<T>(&ra.shr_floor(k), a.len()));
    }
    for k in [usize::MAX, usize::MAX - 7, 1 << 40] {
        let mut x = a.clone();
        want!(t, ElementShl::shl_checked(&mut x[..], k).is_none(), "shl_checked by {k} ({ty})");
        want!(t, ElementShr::shr_checked(&mut x[..], k).is_none(), "shr_checked by {k} ({ty})");
        ElementShl::shl_wrapping(&mut x[..], k);
        want_eq!(t, x, digits::<T>(&ra.shl(k % bits).modulo_pow2(bits), a.len()), "shl_wrapping of {a:?} by {k} ({ty})");
        let mut x = a.clone();
        ElementShr::shr_wrapping(&mut x[..], k);
        want_eq!(t, x, digits::<T>(&ra.shr_floor(k % bits), a.len()), "shr_wrapping of {a:?} by {k} ({ty})");
        want!(t, value(&ElementShr::shr(&a[..], k)).is_zero(), "ElementShr::shr of {a:?} by {k} ({ty})");
    }
    let mut x = a.clone();
    ElementNot::not(&mut x[..]);
    let want: Vec<T> = a.iter().map(|d| !*d).collect();
    want_eq!(t, x, want, "ElementNot::not of {a:?} ({ty})");
    Ok(())
}

/// All slices of the given lengths: sequences over the digit alphabet for short ones, structured
/// patterns for long ones
fn items<T: Digit>(short: &[(usize, u32)], long: &[usize]) -> Vec<Item<T>> {
    let mut out: Vec<Vec<T>> = Vec::new();
    for &(len, level) in short {
        out.extend(seqs(&alphabet::<T>(level), len));
    }
    let max = u128::MAX >> (128 - T::BYTES * 8);
    for &len in long {
        let mk = |f: &dyn Fn(usize) -> u128| (0..len).map(|i| T::of(f(i))).collect::<Vec<T>>();
        out.push(mk(&|_| max));
        out.push(mk(&|_| 0));
        out.push(mk(&|i| u128::from(i == 0)));
        out.push(mk(&|i| u128::from(i == len - 1)));
        out.push(mk(&|i| if i == 0 { 0 } else { max }));
        out.push(mk(&|i| if i == len - 1 { 0 } else { max }));
        out.push(mk(&|i| if i == len - 1 { 1 } else { max }));
        out.push(mk(&|i| if i % 2 == 0 { max } else { 0 }));
        out.push(mk(&|i| if i % 2 == 1 { max - 1 } else { 1 }));
        out.push(mk(&|i| (0x9E37_79B9_7F4A_7C15_F39C_C060_5CED_C835u128.wrapping_mul(2 * i as u128 + 3)) >> 17));
        out.push(mk(&|i| (i as u128 + 1) * 37));
        for j in 1..len - 1 {
            out.push(mk(&|i| if i == j { max } else { 0 }));
            out.push(mk(&|i| if i == j { 0 } else { max }));
        }
    }
    let mut seen = std::collections::HashSet::new();
    out.retain(|x| seen.insert(x.clone()));
    out.into_iter().map(|v| (v.clone(), value(&v))).collect()
}

fn run<T: Digit>(c: &mut Ctx) {
    let th = c.thorough;
    let ty = T::NAME;
    let all: Vec<Item<T>> = if th {
        items(&[(1, 2), (2, 2), (3, 1), (4, 0)], &[5, 6, 7, 8, 9])
    } else {
        items(&[(1, 2), (2, 1), (3, 0), (4, 0)], &[5, 6, 8])
    };
    c.section(&format!("{ty} arithmetic"));
    for (n, a) in all.iter().enumerate() {
        c.case(
            || format!("{ty} {:?} with each of {} slices", a.0, all.len()),
            |t| {
                for (m, b) in all.iter().enumerate() {
                    pair(t, a, b, th || (n + m) % 3 == 0 || T::BYTES == 1)?;
                }
                Ok(())
            },
        );
    }
    c.section(&format!("{ty} division"));
    let dv: Vec<&Item<T>> = all.iter().filter(|i| th || i.0.len() * T::BYTES <= 48).collect();
    for a in &dv {
        c.case(
            || format!("{ty} {:?} by each of {} slices", a.0, dv.len()),
            |t| dv.iter().enumerate().try_for_each(|(i, b)| div(t, a, b, T::BYTES > 1 || th || i % 3 == 0)),
        );
    }
    // Every pair of lengths
    c.section(&format!("{ty} lengths"));
    let lens: Vec<usize> = (1..=20).chain([24, 31, 32, 33, 40, 63, 64, 65]).chain(if th { vec![127, 128, 129] } else { vec![] }).collect();
    let of = |len: usize| -> Vec<Item<T>> {
        let max = u128::MAX >> (128 - T::BYTES * 8);
        let mk = |f: &dyn Fn(usize) -> u128| {
            let v: Vec<T> = (0..len).map(|i| T::of(f(i))).collect();
            let r = value(&v);
            (v, r)
        };
        vec![
            mk(&|_| max),
            mk(&|i| if i == 0 { max } else { u128::from(i == len - 1) }),
            mk(&|i| (0x9E37_79B9_7F4A_7C15_F39C_C060_5CED_C835u128.wrapping_mul(2 * i as u128 + 3)) >> 17),
        ]
    };
    for &la in &lens {
        for (k, a) in of(la).into_iter().enumerate() {
            c.case(
                || format!("{ty} {la} digits, pattern {k}, with every length"),
                |t| {
                    for &lb in &lens {
                        for b in of(lb) {
                            pair(t, &a, &b, (la + lb) * T::BYTES <= 80)?;
                            if la * T::BYTES <= if th { 260 } else { 80 } {
                                div(t, &a, &b, true)?;
                            }
                        }
                    }
                    Ok(())
                },
            );
            if la > 4 && la * T::BYTES <= if th { 1040 } else { 264 } {
                c.case(|| format!("{ty} {la} digits, pattern {k}, by every distance"), |t| shifts(t, &a, la * T::BYTES <= 40));
            }
        }
    }
    // More digits, or bits, than narrow counters count
    c.section(&format!("{ty} long"));
    for la in [127usize, 128, 129, 255, 256, 257, 300, 65_528 / (8 * T::BYTES), 65_536 / (8 * T::BYTES) + 1] {
        if la > 300 && T::BYTES == 1 && CHECKED && !th {
            continue;
        }
        for (k, a) in of(la).into_iter().enumerate() {
            c.case(
                || format!("{ty} {la} digits, pattern {k}"),
                |t| {
                    for lb in [1, 2, 33, la - 1, la] {
                        // Products of the longest take too long
                        if la * lb > 100_000 {
                            continue;
                        }
                        pair(t, &a, &of(lb)[(k + lb) % 3], false)?;
                    }
                    let bits = la * T::BYTES * 8;
                    shifts_by(t, &a, &[1, 7, 255, 256, 257, bits / 2, bits - 1, bits, bits + 1], false)
                },
            );
        }
    }
    c.section(&format!("{ty} shifts"));
    for a in &all {
        c.case(|| format!("{ty} {:?} by every distance", a.0), |t| shifts(t, a, th || a.0.len() * T::BYTES <= 8));
    }
}

fn main() {
    engine::main(|c| {
        // Every pair of single bytes
        let bytes: Vec<Item<u8>> = (0..=255u8).map(|b| (vec![b], R::from_u128(b as u128))).collect();
        c.section("every pair of single u8 digits");
        for a in &bytes {
            c.case(
                || format!("u8 {:?} with every single digit", a.0),
                |t| {
                    for b in &bytes {
                        pair(t, a, b, true)?;
                        div(t, a, b, true)?;
                    }
                    shifts(t, a, true)
                },
            );
        }
        // Two digits against one, exhaustively in one operand
        c.section("every two-digit u8 slice");
        let few: Vec<Item<u8>> = items(&[(1, 1), (2, 0)], &[3]);
        for hi in 0..=255u8 {
            c.case(
                || format!("u8 [_, {hi}] with each of {} slices", few.len()),
                |t| {
                    for lo in 0..=255u8 {
                        let a = (vec![lo, hi], R::from_bytes_le(false, &[lo, hi]));
                        for b in &few {
                            pair(t, &a, b, true)?;
                            pair(t, b, &a, true)?;
                            div(t, &a, b, lo % 16 == 0)?;
                            div(t, b, &a, lo % 16 == 0)?;
                        }
                        shifts(t, &a, true)?;
                    }
                    Ok(())
                },
            );
        }
        run::<u8>(c);
        run::<u16>(c);
        run::<u32>(c);
        run::<u64>(c);
        run::<u128>(c);
        run::<usize>(c);
    });
}
