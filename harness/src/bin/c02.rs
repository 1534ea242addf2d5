use numeric_ints::BigInt;
use numeric_mc::alpha::*;
use numeric_mc::big::*;
use numeric_mc::engine::{self, *};
use numeric_mc::refint::R;

fn pair(t: &mut Tally, a: &BigInt, ra: &R, rb: &R) -> Res {
    let b = mk(rb);
    t.state();
    if rb.is_zero() {
        must_panic(|| format!("{ra:?} / 0"), || a / &b)?;
        must_panic(|| format!("{ra:?} % 0"), || a % &b)?;
        t.ops += 2;
        return Ok(());
    }
    let (q, r) = ra.div_rem(rb);
    expect(&(a / &b), &q, || format!("{ra:?} / {rb:?}"))?;
    expect(&(a % &b), &r, || format!("{ra:?} % {rb:?}"))?;
    expect(&b, rb, || format!("operand {rb:?} changed"))?;
    t.ops += 2;
    Ok(())
}

fn forms(t: &mut Tally, a: &BigInt, ra: &R, rb: &R) -> Res {
    let b = mk(rb);
    t.state();
    macro_rules! all {
        ($op:tt, $asg:tt, $want:expr) => {{
            let nm = |f: &str| format!("{:?} {} {:?} ({f})", ra, stringify!($op), rb);
            if rb.is_zero() {
                must_panic(|| nm("owned, owned"), || a.clone() $op b.clone())?;
                must_panic(|| nm("owned, borrowed"), || a.clone() $op &b)?;
                must_panic(|| nm("borrowed, owned"), || a $op b.clone())?;
                must_panic(|| nm("assign owned"), || { let mut x = a.clone(); x $asg b.clone(); x })?;
                must_panic(|| nm("assign borrowed"), || { let mut x = a.clone(); x $asg &b; x })?;
            } else {
                let want = $want;
                expect(&(a.clone() $op b.clone()), &want, || nm("owned, owned"))?;
                expect(&(a.clone() $op &b), &want, || nm("owned, borrowed"))?;
                expect(&(a $op b.clone()), &want, || nm("borrowed, owned"))?;
                expect(&(a $op &b), &want, || nm("borrowed, borrowed"))?;
                let mut x = a.clone();
                x $asg b.clone();
                expect(&x, &want, || nm("assign owned"))?;
                let mut x = a.clone();
                x $asg &b;
                expect(&x, &want, || nm("assign borrowed"))?;
            }
            t.ops += 6;
        }};
    }
    all!(/, /=, ra.div_rem(rb).0);
    all!(%, %=, ra.div_rem(rb).1);
    expect(a, ra, || "left operand changed".into())?;
    expect(&b, rb, || "right operand changed".into())
}

macro_rules! prim_forms {
    ($t:expr, $a:expr, $ra:expr, $($ty:ty: [$($v:expr),*]),*) => {$($(
        let p: $ty = $v;
        let rp = if (<$ty>::MIN as i128) < 0 { R::from_i128(p as i128) } else { R::from_u128(p as u128) };
        let nm = || format!("{:?} op {}{}", $ra, p, stringify!($ty));
        if p == 0 {
            must_panic(|| format!("/ {}", nm()), || $a.clone() / p)?;
            must_panic(|| format!("% {}", nm()), || $a.clone() % p)?;
            must_panic(|| format!("/= {}", nm()), || { let mut x = $a.clone(); x /= p; x })?;
            must_panic(|| format!("%= {}", nm()), || { let mut x = $a.clone(); x %= p; x })?;
        } else {
            let (q, r) = $ra.div_rem(&rp);
            expect(&($a.clone() / p), &q, || format!("/ {}", nm()))?;
            expect(&($a.clone() % p), &r, || format!("% {}", nm()))?;
            let mut x = $a.clone();
            x /= p;
            expect(&x, &q, || format!("/= {}", nm()))?;
            let mut x = $a.clone();
            x %= p;
            expect(&x, &r, || format!("%= {}", nm()))?;
        }
        $t.ops += 4;
        $t.states += 1;
    )*)*};
}

/// More than one block of the store
const STORED: u64 = 36;

fn main() {
    engine::main(|c| {
        c.section("pairs");
        let vals = signed(&magnitudes(if c.thorough { 2 } else { 1 }));
        for ra in &vals {
            c.case(
                || format!("a = {ra:?}, every b of {} values", vals.len()),
                |t| {
                    let a = mk(ra);
                    for rb in &vals {
                        pair(t, &a, ra, rb)?;
                    }
                    expect(&a, ra, || format!("operand {ra:?} changed"))
                },
            );
        }

        // Dividends around multiples of the divisor: q*b + r for r at the ends of its range
        c.section("around multiples");
        let qs = magnitudes(if c.thorough { 1 } else { 0 });
        let bs = magnitudes(0);
        for rb in bs.iter().filter(|b| !b.is_zero()) {
            c.case(
                || format!("b = {rb:?}, a = q*b + e for every q of {} values and e in -1, 0, 1", qs.len()),
                |t| {
                    let b = mk(rb);
                    let nb = mk(&rb.neg());
                    for q in &qs {
                        let m = q.mul(rb);
                        for e in -1..=1 {
                            let ra = m.add(&R::from_i128(e));
                            for (ra, rb, b) in [(&ra, rb, &b), (&ra.neg(), rb, &b), (&ra, &rb.neg(), &nb)] {
                                let a = mk(ra);
                                let (wq, wr) = ra.div_rem(rb);
                                expect(&(&a / b), &wq, || format!("{ra:?} / {rb:?}"))?;
                                expect(&(&a % b), &wr, || format!("{ra:?} % {rb:?}"))?;
                                t.ops += 2;
                                t.states += 1;
                            }
                        }
                    }
                    Ok(())
                },
            );
        }

        // Every pair of limb counts
        c.section("lengths");
        let th = c.thorough;
        for la in all_lengths(th) {
            for (i, ra) in of_length(la).iter().enumerate() {
                if la > 66 && i % 3 != 0 {
                    continue;
                }
                c.case(
                    || format!("a of {la} limbs, pattern {i}; b of every limb count it is paired with"),
                    |t| {
                        for (ra, sb) in [(ra.clone(), false), (ra.neg(), true)] {
                            let a = mk(&ra);
                            for lb in partners(la, th) {
                                for rb in of_length(lb) {
                                    let rb = if sb { rb.neg() } else { rb };
                                    pair(t, &a, &ra, &rb)?;
                                }
                            }
                        }
                        Ok(())
                    },
                );
            }
        }

        c.section("thousands of limbs");
        for &la in huge_lengths(th) {
            for lb in [1, 2, 65, la / 2, la - 1, la] {
                // Long division takes seconds without optimisation
                if CHECKED && (la < 1024 || !(lb == 65 || lb == la - 1)) && !th {
                    continue;
                }
                c.case(
                    || format!("{la} limbs by {lb} limbs"),
                    |t| {
                        let ra = of_length(la)[if lb % 2 == 0 { 0 } else { 3 }].neg();
                        pair(t, &mk(&ra), &ra, &pattern_of(lb, 3))
                    },
                );
            }
        }

        c.section("small values that equal the indices of stored ones");
        for k in 0..STORED as usize {
            c.case(
                || format!("stored value {k} of {STORED} with every small value"),
                |t| {
                    let stored = stored(STORED);
                    let (a, ra) = &stored[k];
                    for rb in near_indices(STORED) {
                        pair(t, a, ra, &rb)?;
                        pair(t, &mk(&rb), &rb, ra)?;
                    }
                    for (x, r) in &stored {
                        expect(x, r, || format!("stored value {r:?} changed"))?;
                    }
                    Ok(())
                },
            );
        }

        c.section("operand forms");
        let small = signed(&magnitudes(0));
        for ra in &small {
            c.case(
                || format!("a = {ra:?}, every b, all operand forms"),
                |t| {
                    let a = mk(ra);
                    for rb in &small {
                        forms(t, &a, ra, rb)?;
                    }
                    if !ra.is_zero() {
                        expect(&(&a / &a), &R::from_u128(1), || format!("&a / &a, a = {ra:?}"))?;
                        expect(&(&a % &a), &R::zero(), || format!("&a % &a, a = {ra:?}"))?;
                        t.ops += 2;
                    }
                    Ok(())
                },
            );
        }

        c.section("primitive operands");
        for ra in &signed(&magnitudes(if c.thorough { 1 } else { 0 })) {
            c.case(
                || format!("a = {ra:?}, primitive right operands"),
                |t| {
                    let a = mk(ra);
                    prim_forms!(t, a, ra,
                        u8: [0, 1, 2, 10, 127, 128, 255], i8: [0, 1, -1, 127, -127, -128],
                        u16: [0, 1, 255, 256, 32768, 65535], i16: [0, -1, 32767, -32768, 300],
                        u32: [0, 1, 10, 1 << 31, u32::MAX], i32: [0, -1, i32::MAX, i32::MIN, 7],
                        u64: [0, 1, 3, 1 << 62, (1 << 62) - 1, 1 << 63, u64::MAX],
                        i64: [0, -1, i64::MAX, i64::MIN, -(1 << 62), 1 << 62],
                        usize: [0, 1, 10, 1 << 62, usize::MAX >> 2, usize::MAX],
                        isize: [0, -1, isize::MAX, isize::MIN],
                        u128: [0, 1, 1 << 64, (1 << 64) - 1, u128::MAX, 1 << 127],
                        i128: [0, -1, i128::MAX, i128::MIN, -(1 << 64)]);
                    Ok(())
                },
            );
        }

        // Every small pair
        c.section("small pairs");
        let n: i128 = if c.thorough { 400 } else { 130 };
        for a in -n..=n {
            c.case(
                || format!("{a} by every b in -{n}..={n}"),
                |t| {
                    let ra = R::from_i128(a);
                    let big = mk(&ra);
                    for b in -n..=n {
                        pair(t, &big, &ra, &R::from_i128(b))?;
                    }
                    Ok(())
                },
            );
        }

        // One-bit-set dividends and divisors at every position
        c.section("powers of two");
        let bits = if c.thorough { 400 } else { 200 };
        for i in 0..bits {
            c.case(
                || format!("2^{i} and 2^{i} +- 1 by 2^j and 2^j +- 1, j < {bits}"),
                |t| {
                    let one = R::from_u128(1);
                    for da in [R::zero(), one.clone(), one.neg()] {
                        let ra = R::pow2(i).add(&da);
                        let a = mk(&ra);
                        for j in 0..bits {
                            for db in [R::zero(), one.clone(), one.neg()] {
                                pair(t, &a, &ra, &R::pow2(j).add(&db))?;
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
    });
}
