use numeric_ints::BigInt;
use numeric_mc::alpha::*;
use numeric_mc::big::*;
use numeric_mc::engine::{self, *};
use numeric_mc::refint::R;
use numeric_traits::class::Signed;
use std::collections::HashMap;

macro_rules! prim_forms {
    ($t:expr, $a:expr, $ra:expr, $($ty:ty: [$($v:expr),*]),*) => {$($(
        let p: $ty = $v;
        let rp = if (<$ty>::MIN as i128) < 0 { R::from_i128(p as i128) } else { R::from_u128(p as u128) };
        let nm = || format!("{:?} op {}{}", $ra, p, stringify!($ty));
        expect(&($a.clone() + p), &$ra.add(&rp), || format!("+ {}", nm()))?;
        expect(&($a.clone() - p), &$ra.sub(&rp), || format!("- {}", nm()))?;
        expect(&($a.clone() * p), &$ra.mul(&rp), || format!("* {}", nm()))?;
        let mut x = $a.clone();
        x += p;
        expect(&x, &$ra.add(&rp), || format!("+= {}", nm()))?;
        let mut x = $a.clone();
        x -= p;
        expect(&x, &$ra.sub(&rp), || format!("-= {}", nm()))?;
        let mut x = $a.clone();
        x *= p;
        expect(&x, &$ra.mul(&rp), || format!("*= {}", nm()))?;
        $t.ops += 6;
        $t.states += 1;
    )*)*};
}

fn forms(t: &mut Tally, a: &BigInt, ra: &R, b: &BigInt, rb: &R) -> Res {
    macro_rules! all {
        ($op:tt, $asg:tt, $want:expr) => {{
            let want = $want;
            let nm = |f: &str| format!("{:?} {} {:?} ({f})", ra, stringify!($op), rb);
            expect(&(a.clone() $op b.clone()), &want, || nm("owned, owned"))?;
            expect(&(a.clone() $op b), &want, || nm("owned, borrowed"))?;
            expect(&(a $op b.clone()), &want, || nm("borrowed, owned"))?;
            expect(&(a $op b), &want, || nm("borrowed, borrowed"))?;
            let mut x = a.clone();
            x $asg b.clone();
            expect(&x, &want, || nm("assign owned"))?;
            let mut x = a.clone();
            x $asg b;
            expect(&x, &want, || nm("assign borrowed"))?;
            t.ops += 6;
        }};
    }
    all!(+, +=, ra.add(rb));
    all!(-, -=, ra.sub(rb));
    all!(*, *=, ra.mul(rb));
    expect(a, ra, || "left operand changed".into())?;
    expect(b, rb, || "right operand changed".into())?;
    Ok(())
}

/// More than one block of the store
const STORED: u64 = 36;

fn main() {
    engine::main(|c| {
        // Every pair of the operand alphabet
        c.section("pairs");
        let vals = signed(&magnitudes(if c.thorough { 2 } else { 1 }));
        for ra in &vals {
            if !c.mine() {
                c.skip();
                continue;
            }
            c.case(
                || format!("a = {ra:?}, every b of {} values", vals.len()),
                |t| {
                    let a = mk(ra);
                    for rb in &vals {
                        let b = mk(rb);
                        expect(&(&a + &b), &ra.add(rb), || format!("{ra:?} + {rb:?}"))?;
                        expect(&(&a - &b), &ra.sub(rb), || format!("{ra:?} - {rb:?}"))?;
                        expect(&(&a * &b), &ra.mul(rb), || format!("{ra:?} * {rb:?}"))?;
                        expect(&b, rb, || format!("operand {rb:?} changed"))?;
                        t.ops += 3;
                        t.states += 1;
                    }
                    expect(&a, ra, || format!("operand {ra:?} changed"))?;
                    expect(&-&a, &ra.neg(), || format!("-&{ra:?}"))?;
                    expect(&-a.clone(), &ra.neg(), || format!("-{ra:?}"))?;
                    expect(&a.clone().abs(), &ra.abs(), || format!("abs {ra:?}"))?;
                    expect(&-(-a.clone()), ra, || format!("-(-{ra:?})"))?;
                    t.ops += 4;
                    Ok(())
                },
            );
        }

        // Every pair of limb counts
        c.section("lengths");
        let th = c.thorough;
        for la in all_lengths(th) {
            for (i, ra) in of_length(la).iter().enumerate() {
                c.case(
                    || format!("a of {la} limbs, pattern {i}; b of every limb count it is paired with"),
                    |t| {
                        let a = mk(ra);
                        for lb in partners(la, th) {
                            for rb in of_length(lb) {
                                let b = mk(&rb);
                                expect(&(&a + &b), &ra.add(&rb), || format!("{ra:?} + {rb:?}"))?;
                                expect(&(&a - &b), &ra.sub(&rb), || format!("{ra:?} - {rb:?}"))?;
                                let p = ra.mul(&rb);
                                expect(&(&a * &b), &p, || format!("{ra:?} * {rb:?}"))?;
                                let n = -&b;
                                expect(&(&n + &a), &ra.sub(&rb), || format!("-{rb:?} + {ra:?}"))?;
                                expect(&(&n - &a), &ra.add(&rb).neg(), || format!("-{rb:?} - {ra:?}"))?;
                                expect(&(&n * &a), &p.neg(), || format!("-{rb:?} * {ra:?}"))?;
                                t.ops += 6;
                                t.states += 2;
                            }
                        }
                        expect(&a, ra, || format!("operand {ra:?} changed"))
                    },
                );
            }
        }

        c.section("thousands of limbs");
        for &la in huge_lengths(th) {
            for (i, ra) in of_length(la).iter().enumerate() {
                c.case(
                    || format!("a of {la} limbs, pattern {i}"),
                    |t| {
                        let a = mk(ra);
                        for lb in [1, 2, 65, 257, la - 1, la] {
                            let rb = &pattern_of(lb, if lb % 2 == 0 { 0 } else { i });
                            let n = mk(&rb.neg());
                            expect(&(&a + &n), &ra.sub(rb), || format!("{ra:?} - {rb:?}"))?;
                            expect(&(&n - &a), &ra.add(rb).neg(), || format!("-{rb:?} - {ra:?}"))?;
                            expect(&(&n * &a), &ra.mul(rb).neg(), || format!("-{rb:?} * {ra:?}"))?;
                            t.ops += 3;
                            t.states += 2;
                        }
                        expect(&a, ra, || format!("operand {ra:?} changed"))
                    },
                );
            }
        }

        c.section("small values that equal the indices of stored ones");
        for k in 0..STORED as usize {
            c.case(
                || format!("stored value {k} of {STORED} with every small value"),
                |t| {
                    let stored = stored(STORED);
                    let (a, ra) = &stored[k];
                    for rb in near_indices(STORED) {
                        let b = mk(&rb);
                        expect(&(a + &b), &ra.add(&rb), || format!("{ra:?} + {rb:?}"))?;
                        expect(&(&b + a), &ra.add(&rb), || format!("{rb:?} + {ra:?}"))?;
                        expect(&(a - &b), &ra.sub(&rb), || format!("{ra:?} - {rb:?}"))?;
                        expect(&(&b - a), &rb.sub(ra), || format!("{rb:?} - {ra:?}"))?;
                        expect(&(a * &b), &ra.mul(&rb), || format!("{ra:?} * {rb:?}"))?;
                        expect(&(&b * a), &ra.mul(&rb), || format!("{rb:?} * {ra:?}"))?;
                        t.ops += 6;
                        t.states += 1;
                    }
                    for (x, r) in &stored {
                        expect(x, r, || format!("stored value {r:?} changed"))?;
                    }
                    Ok(())
                },
            );
        }

        c.section("operand forms");
        let small = signed(&magnitudes(0));
        for ra in &small {
            c.case(
                || format!("a = {ra:?}, every b, all operand forms"),
                |t| {
                    let a = mk(ra);
                    for rb in &small {
                        let b = mk(rb);
                        forms(t, &a, ra, &b, rb)?;
                        t.state();
                    }
                    // The same object on both sides
                    expect(&(&a + &a), &ra.add(ra), || format!("&a + &a, a = {ra:?}"))?;
                    expect(&(&a - &a), &R::zero(), || format!("&a - &a, a = {ra:?}"))?;
                    expect(&(&a * &a), &ra.mul(ra), || format!("&a * &a, a = {ra:?}"))?;
                    t.ops += 3;
                    Ok(())
                },
            );
        }

        c.section("primitive operands");
        for ra in &signed(&magnitudes(if c.thorough { 1 } else { 0 })) {
            c.case(
                || format!("a = {ra:?}, primitive right operands"),
                |t| {
                    let a = mk(ra);
                    prim_forms!(t, a, ra,
                        u8: [0, 1, 2, 10, 127, 128, 255], i8: [0, 1, -1, 127, -127, -128],
                        u16: [0, 1, 255, 256, 32768, 65535], i16: [0, -1, 32767, -32768, 300],
                        u32: [0, 1, 1 << 31, u32::MAX], i32: [0, -1, i32::MAX, i32::MIN, 7],
                        u64: [0, 1, 1 << 62, (1 << 62) - 1, 1 << 63, u64::MAX],
                        i64: [0, -1, i64::MAX, i64::MIN, -(1 << 62), 1 << 62],
                        usize: [0, 1, 1 << 62, usize::MAX >> 2, usize::MAX],
                        isize: [0, -1, isize::MAX, isize::MIN],
                        u128: [0, 1, 1 << 64, (1 << 64) - 1, u128::MAX, 1 << 127],
                        i128: [0, -1, i128::MAX, i128::MIN, -(1 << 64)]);
                    Ok(())
                },
            );
        }

        // Histories: breadth-first over the reachable accumulator values
        c.section("operation chains");
        let consts: Vec<R> = [
            R::from_i128(1),
            R::from_i128(-1),
            R::from_i128((1 << 62) - 1),
            R::from_i128(-(1 << 62)),
            R::from_i128(u64::MAX as i128),
            R::from_i128(-(u64::MAX as i128)),
            R::from_u128(u128::MAX),
            R::from_limbs(true, &[0, 0, 1]),
            R::from_limbs(false, &[0, 1]),
            R::from_limbs(true, &[u64::MAX, u64::MAX, u64::MAX]),
        ]
        .into();
        let depth = if c.thorough { 4 } else { 3 };
        for first in 0..consts.len() * 3 {
            c.case(
                || format!("all chains of {depth} operations starting with op {} on {:?}", first % 3, consts[first / 3]),
                |t| {
                    let cs: Vec<BigInt> = consts.iter().map(mk).collect();
                    let step = |b: &BigInt, r: &R, k: usize| {
                        let (cb, cr) = (&cs[k / 3], &consts[k / 3]);
                        match k % 3 {
                            0 => (b + cb, r.add(cr)),
                            1 => (b - cb, r.sub(cr)),
                            _ => (b * cb, r.mul(cr)),
                        }
                    };
                    let mut seen: HashMap<R, ()> = HashMap::new();
                    let mut layer = vec![(BigInt::from(3), R::from_u128(3), vec![])];
                    for d in 0..depth {
                        let mut next = Vec::new();
                        for (b, r, hist) in &layer {
                            let ks = if d == 0 { first..first + 1 } else { 0..consts.len() * 3 };
                            for k in ks {
                                let (nb, nr) = step(b, r, k);
                                t.ops += 1;
                                expect(&nb, &nr, || format!("history {hist:?} then {k} from 3 (k = 3*const + op, consts {consts:?})"))?;
                                if seen.insert(nr.clone(), ()).is_none() {
                                    t.states += 1;
                                    if d + 1 < depth {
                                        let mut h: Vec<usize> = hist.clone();
                                        h.push(k);
                                        next.push((nb, nr, h));
                                    }
                                }
                            }
                            expect(b, r, || format!("value after history {hist:?} changed"))?;
                        }
                        layer = next;
                    }
                    Ok(())
                },
            );
        }
    });
}
