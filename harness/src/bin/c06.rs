use numeric_ints::BigInt;
use numeric_mc::alpha::*;
use numeric_mc::big::*;
use numeric_mc::engine::{self, *};
use numeric_mc::refint::R;
use numeric_traits::ops::Pow;

macro_rules! shift_prims {
    ($t:expr, $a:expr, $ra:expr, $k:expr, $($ty:ty),*) => {$(
        if let Ok(k) = <$ty>::try_from($k) {
            expect(&($a.clone() << k), &$ra.shl($k), || format!("{:?} << {}{}", $ra, $k, stringify!($ty)))?;
            expect(&($a.clone() >> k), &$ra.shr_floor($k), || format!("{:?} >> {}{}", $ra, $k, stringify!($ty)))?;
            $t.ops += 2;
        }
    )*};
}

fn shift(t: &mut Tally, a: &BigInt, ra: &R, k: usize, forms: bool) -> Res {
    let bk = BigInt::from(k);
    let (l, r) = (ra.shl(k), ra.shr_floor(k));
    expect(&(a << &bk), &l, || format!("{ra:?} << {k}"))?;
    expect(&(a >> &bk), &r, || format!("{ra:?} >> {k}"))?;
    t.ops += 2;
    t.state();
    if forms {
        expect(&(a.clone() << bk.clone()), &l, || format!("{ra:?} << {k} (owned, owned)"))?;
        expect(&(a.clone() << &bk), &l, || format!("{ra:?} << {k} (owned, borrowed)"))?;
        expect(&(a << bk.clone()), &l, || format!("{ra:?} << {k} (borrowed, owned)"))?;
        expect(&(a.clone() >> bk.clone()), &r, || format!("{ra:?} >> {k} (owned, owned)"))?;
        expect(&(a.clone() >> &bk), &r, || format!("{ra:?} >> {k} (owned, borrowed)"))?;
        expect(&(a >> bk.clone()), &r, || format!("{ra:?} >> {k} (borrowed, owned)"))?;
        t.ops += 6;
        shift_prims!(t, a, ra, k, u8, i8, u16, i16, u32, i32, u64, i64, u128, i128, usize, isize);
    }
    Ok(())
}

fn bitwise(t: &mut Tally, a: &BigInt, ra: &R, rb: &R, forms: bool) -> Res {
    let b = mk(rb);
    t.state();
    macro_rules! op {
        ($op:tt) => {{
            let want = ra.bitop(rb, |x, y| x $op y);
            let nm = |f: &str| format!("{ra:?} {} {rb:?} ({f})", stringify!($op));
            expect(&(a $op &b), &want, || nm("borrowed, borrowed"))?;
            t.ops += 1;
            if forms {
                expect(&(a.clone() $op b.clone()), &want, || nm("owned, owned"))?;
                expect(&(a.clone() $op &b), &want, || nm("owned, borrowed"))?;
                expect(&(a $op b.clone()), &want, || nm("borrowed, owned"))?;
                expect(&(&b $op a), &want, || nm("swapped"))?;
                t.ops += 4;
            }
        }};
    }
    op!(&);
    op!(|);
    op!(^);
    expect(&b, rb, || format!("operand {rb:?} changed"))
}

/// More than one block of the store
const STORED: u64 = 36;

fn main() {
    engine::main(|c| {
        c.section("shifts");
        let vals = signed(&magnitudes(if c.thorough { 2 } else { 1 }));
        let ks: Vec<usize> = if c.thorough {
            (0..=330).chain([511, 512, 513, 640, 1000, 1024, 2047, 2048, 4096, 10_000, 65_536]).collect()
        } else {
            (0..=8)
                .chain([15, 16, 17, 31, 32, 33, 47, 55, 56, 57])
                .chain((60..=68).chain(124..=132))
                .chain([100, 150, 188, 191, 192, 193, 200, 255, 256, 257, 300, 319, 320, 321, 383, 384, 385, 448, 512, 513, 640, 1000, 1024, 1500])
                .collect()
        };
        for ra in &vals {
            c.case(
                || format!("a = {ra:?}, {} distances", ks.len()),
                |t| {
                    let a = mk(ra);
                    for &k in &ks {
                        shift(t, &a, ra, k, false)?;
                    }
                    expect(&a, ra, || format!("operand {ra:?} changed"))
                },
            );
        }

        c.section("shift forms, every distance");
        let small = signed(&magnitudes(0));
        let top = if c.thorough { 1100 } else { 270 };
        for ra in small.iter().step_by(if c.thorough { 1 } else { 2 }) {
            c.case(
                || format!("a = {ra:?}, every distance up to {top}, all operand forms"),
                |t| {
                    let a = mk(ra);
                    for k in 0..=top {
                        shift(t, &a, ra, k, true)?;
                    }
                    Ok(())
                },
            );
        }

        c.section("shift right by large distances");
        for ra in &small {
            c.case(
                || format!("a = {ra:?}"),
                |t| {
                    let a = mk(ra);
                    let want = R::from_i128(if ra.is_neg() { -1 } else { 0 });
                    for k in [3000u64, 1 << 16, 1 << 20, 1 << 32, (1 << 32) + 64, 1 << 62, u64::MAX - 63, u64::MAX - 1, u64::MAX] {
                        expect(&(&a >> BigInt::from(k)), &want, || format!("{ra:?} >> {k}"))?;
                        expect(&(a.clone() >> k), &want, || format!("{ra:?} >> {k}u64"))?;
                        t.ops += 2;
                        t.state();
                    }
                    Ok(())
                },
            );
        }

        // Every pair of limb counts, and every limb count with every whole- and part-word distance
        c.section("lengths");
        let th = c.thorough;
        for la in all_lengths(th) {
            for (i, ra) in of_length(la).iter().enumerate() {
                c.case(
                    || format!("a of {la} limbs, pattern {i}; b and distances of every limb count it is paired with"),
                    |t| {
                        for ra in [ra.clone(), ra.neg()] {
                            let a = mk(&ra);
                            for lb in partners(la, th) {
                                for rb in of_length(lb) {
                                    bitwise(t, &a, &ra, &rb, false)?;
                                    bitwise(t, &a, &ra, &rb.neg(), false)?;
                                }
                                for d in [0, 1, 63] {
                                    shift(t, &a, &ra, 64 * (lb - 1) + d, false)?;
                                }
                            }
                        }
                        Ok(())
                    },
                );
            }
        }

        c.section("thousands of limbs");
        for &la in huge_lengths(th) {
            for (i, ra) in of_length(la).iter().enumerate() {
                c.case(
                    || format!("a of {la} limbs, pattern {i}"),
                    |t| {
                        let ra = if i % 2 == 0 { ra.clone() } else { ra.neg() };
                        let a = mk(&ra);
                        for lb in [1, 2, 257, la - 1, la] {
                            let rb = &pattern_of(lb, if lb % 2 == 0 { 0 } else { i });
                            bitwise(t, &a, &ra, rb, false)?;
                            bitwise(t, &a, &ra, &rb.neg(), false)?;
                        }
                        for k in [1, 64 * la - 65, 64 * la - 1, 64 * la, 16384, 32767, 32768, 32769, 65472, 65535, 65536, 65537, 70001] {
                            shift(t, &a, &ra, k, false)?;
                        }
                        Ok(())
                    },
                );
            }
        }

        c.section("bitwise pairs");
        for ra in &vals {
            c.case(
                || format!("a = {ra:?}, every b of {} values", vals.len()),
                |t| {
                    let a = mk(ra);
                    for rb in &vals {
                        bitwise(t, &a, ra, rb, false)?;
                    }
                    let not = ra.neg().sub(&R::from_u128(1));
                    expect(&!a.clone(), &not, || format!("!{ra:?}"))?;
                    expect(&!!a.clone(), ra, || format!("!!{ra:?}"))?;
                    t.ops += 2;
                    expect(&a, ra, || format!("operand {ra:?} changed"))
                },
            );
        }

        c.section("bitwise forms");
        for ra in &small {
            c.case(
                || format!("a = {ra:?}, every b, all operand forms"),
                |t| {
                    let a = mk(ra);
                    for rb in &small {
                        bitwise(t, &a, ra, rb, true)?;
                    }
                    Ok(())
                },
            );
        }

        c.section("small values that equal the indices of stored ones");
        for k in 0..STORED as usize {
            c.case(
                || format!("stored value {k} of {STORED} with every small value"),
                |t| {
                    let stored = stored(STORED);
                    let (a, ra) = &stored[k];
                    for rb in near_indices(STORED) {
                        bitwise(t, a, ra, &rb, true)?;
                    }
                    for (x, r) in &stored {
                        expect(x, r, || format!("stored value {r:?} changed"))?;
                    }
                    Ok(())
                },
            );
        }

        c.section("every small bitwise pair");
        let n: i128 = if c.thorough { 260 } else { 66 };
        for a in -n..=n {
            c.case(
                || format!("{a} with every b in -{n}..={n}"),
                |t| {
                    let ra = R::from_i128(a);
                    let big = mk(&ra);
                    for b in -n..=n {
                        bitwise(t, &big, &ra, &R::from_i128(b), false)?;
                    }
                    Ok(())
                },
            );
        }

        c.section("powers of small values");
        for base in -12i128..=12 {
            let rb = R::from_i128(base);
            c.case(
                || format!("{base} to every exponent up to 300 and some larger"),
                |t| {
                    let mut want = R::from_u128(1);
                    let mut at = 0usize;
                    let far = [500, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097];
                    let far = &far[..if base.abs() < 4 { 14 } else if base.abs() <= 10 { 8 } else { 4 }];
                    for n in (0..=300).chain(far.iter().copied()) {
                        while at < n {
                            want = want.mul(&rb);
                            at += 1;
                        }
                        expect(&mk(&rb).pow(BigInt::from(n as u64)), &want, || format!("{base} pow {n}"))?;
                        t.op();
                        t.state();
                    }
                    Ok(())
                },
            );
        }

        c.section("powers with large exponents");
        for base in [-2i128, -1, 0, 1, 2] {
            for near in [1u64 << 13, 1 << 15, 1 << 16, 1 << 17, 1 << 20] {
                for n in [near - 1, near, near + 1, near + 3] {
                    if base.abs() == 2 && (near > 1 << 16 || near + 1 != n) {
                        continue;
                    }
                    c.case(
                        || format!("{base} pow {n}"),
                        |t| {
                            let odd = n % 2 == 1;
                            let size = match base.abs() {
                                2 => R::pow2(n as usize),
                                b => R::from_i128(b),
                            };
                            let want = if base < 0 && odd { size.neg() } else { size };
                            t.op();
                            t.state();
                            expect(&mk(&R::from_i128(base)).pow(BigInt::from(n)), &want, || format!("{base} pow {n}"))
                        },
                    );
                }
            }
        }

        c.section("powers");
        let top = if c.thorough { 80 } else { 24 };
        for ra in &small {
            c.case(
                || format!("a = {ra:?}, every exponent up to {top}"),
                |t| {
                    let a = mk(ra);
                    let mut want = R::from_u128(1);
                    for n in 0..=top {
                        if want.bit_len() > 12_000 {
                            break;
                        }
                        expect(&a.clone().pow(BigInt::from(n)), &want, || format!("{ra:?} pow {n}"))?;
                        t.op();
                        t.state();
                        want = want.mul(ra);
                    }
                    Ok(())
                },
            );
        }
        for a in -10i128..=12 {
            c.case(
                || format!("{a} to every power up to 300"),
                |t| {
                    let ra = R::from_i128(a);
                    let big = mk(&ra);
                    let mut want = R::from_u128(1);
                    for n in 0..=300 {
                        expect(&big.clone().pow(BigInt::from(n)), &want, || format!("{a} pow {n}"))?;
                        t.op();
                        t.state();
                        want = want.mul(&ra);
                    }
                    Ok(())
                },
            );
        }
    });
}
