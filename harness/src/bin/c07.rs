use numeric_ints::BigInt;
use numeric_mc::big::*;
use numeric_mc::engine::{self, *};
use numeric_mc::heap;
use numeric_mc::refint::R;
use numeric_mc::{want, want_eq};
use numeric_traits::cast::FromStrRadix;
use numeric_traits::class::Signed;
use numeric_traits::ops::Pow;
use std::cell::Cell;

#[global_allocator]
static HEAP: heap::Counting = heap::Counting;

thread_local! {
    static FRESH: Cell<u64> = const { Cell::new(0) };
}

/// A two-word value that was never used before in this process
fn fresh() -> u128 {
    FRESH.with(|f| {
        f.set(f.get() + 1);
        (f.get() as u128) << 64 | 0xABCD_EF01_2345_6789
    })
}

/// Put the shared store in a canonical state: as many distinct values as the store may have slots
/// for are created, so that every slot is taken, and dropped
fn reset(slots: u64) {
    let v: Vec<BigInt> = (0..slots).map(|i| BigInt::from((1u128 << 100) + i as u128)).collect();
    drop(v);
}

fn consts() -> Vec<R> {
    vec![
        R::from_i128(5),
        R::from_i128(1 << 62),
        R::from_i128(-(1 << 62)),
        R::from_u128(u64::MAX as u128),
        R::from_limbs(false, &[0, 1]),
        R::from_limbs(true, &[3, 0, u64::MAX]),
    ]
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    /// slot = constant
    Make(usize, usize),
    /// slot a = clone of slot b
    Copy(usize, usize),
    /// slot = -slot, taking it
    Neg(usize),
    /// slot = -&slot
    NegRef(usize),
    Drop(usize),
    Swap(usize, usize),
    /// slot a += slot b
    Add(usize, usize),
    /// slot a -= slot b
    Sub(usize, usize),
    /// slot a = slot a * slot b, both by value
    Mul(usize, usize),
    /// slot a = slot b >> 64
    Shr(usize, usize),
    /// Clone over an existing handle with clone_from
    CloneFrom(usize, usize),
    /// slot a = mem::take(slot b)
    Take(usize, usize),
}

fn ops(slots: usize, consts: usize) -> Vec<Op> {
    let mut out = vec![];
    for s in 0..slots {
        for k in 0..consts {
            out.push(Op::Make(s, k));
        }
        out.push(Op::Neg(s));
        out.push(Op::NegRef(s));
        out.push(Op::Drop(s));
        for b in 0..slots {
            if b != s {
                out.push(Op::Copy(s, b));
                out.push(Op::CloneFrom(s, b));
                out.push(Op::Take(s, b));
                out.push(Op::Sub(s, b));
                out.push(Op::Mul(s, b));
            }
            if b > s {
                out.push(Op::Swap(s, b));
            }
            out.push(Op::Add(s, b));
            out.push(Op::Shr(s, b));
        }
    }
    out
}

type Pool = Vec<Option<(BigInt, R)>>;

/// Whether the step is enabled
fn step(pool: &mut Pool, op: Op, cs: &[R]) -> bool {
    fn two(pool: &mut Pool, a: usize, b: usize) -> Option<(BigInt, R, BigInt, R)> {
        let (y, ry) = pool[b].as_ref()?;
        let (y, ry) = (y.clone(), ry.clone());
        if a == b {
            return Some((y.clone(), ry.clone(), y, ry));
        }
        let (x, rx) = pool[a].take()?;
        Some((x, rx, y, ry))
    }
    match op {
        Op::Make(s, k) => pool[s] = Some((mk(&cs[k]), cs[k].clone())),
        Op::Copy(a, b) => {
            if pool[b].is_none() {
                return false;
            }
            pool[a] = pool[b].clone();
        }
        Op::CloneFrom(a, b) => {
            if pool[a].is_none() || pool[b].is_none() {
                return false;
            }
            let (y, ry) = pool[b].take().unwrap();
            let (x, rx) = pool[a].as_mut().unwrap();
            x.clone_from(&y);
            *rx = ry.clone();
            pool[b] = Some((y, ry));
        }
        Op::Take(a, b) => {
            let Some((y, ry)) = pool[b].as_mut() else { return false };
            let v = (std::mem::take(y), ry.clone());
            *ry = R::zero();
            pool[a] = Some(v);
        }
        Op::Neg(s) => match pool[s].take() {
            Some((x, r)) => pool[s] = Some((-x, r.neg())),
            None => return false,
        },
        Op::NegRef(s) => match pool[s].take() {
            Some((x, r)) => pool[s] = Some((-&x, r.neg())),
            None => return false,
        },
        Op::Drop(s) => {
            if pool[s].take().is_none() {
                return false;
            }
        }
        Op::Swap(a, b) => {
            if pool[a].is_none() && pool[b].is_none() {
                return false;
            }
            pool.swap(a, b);
        }
        Op::Add(a, b) => {
            let Some((_, ry)) = pool[b].clone() else { return false };
            let y = pool[b].as_ref().unwrap().0.clone();
            match pool[a].as_mut() {
                Some((x, rx)) => {
                    *x += &y;
                    *rx = rx.add(&ry);
                }
                None => return false,
            }
        }
        Op::Sub(a, b) => match two(pool, a, b) {
            Some((mut x, rx, y, ry)) => {
                x -= y;
                pool[a] = Some((x, rx.sub(&ry)));
            }
            None => return false,
        },
        Op::Mul(a, b) => match two(pool, a, b) {
            Some((x, rx, y, ry)) => pool[a] = Some((x * y, rx.mul(&ry))),
            None => return false,
        },
        Op::Shr(a, b) => {
            let Some((y, ry)) = &pool[b] else { return false };
            let v = (y >> BigInt::from(64), ry.shr_floor(64));
            pool[a] = Some(v);
        }
    }
    true
}

fn check(t: &mut Tally, pool: &Pool, hist: &dyn Fn() -> String) -> Res {
    for (i, v) in pool.iter().enumerate() {
        if let Some((b, r)) = v {
            expect(b, r, || format!("handle {i} after {}", hist()))?;
            t.op();
            for (j, w) in pool.iter().enumerate() {
                if let Some((c, s)) = w {
                    want_eq!(t, b == c, r == s, "equality of handles {i} and {j} after {}", hist());
                }
            }
        }
    }
    t.state();
    Ok(())
}

fn histories(t: &mut Tally, all: &[Op], cs: &[R], slots: usize, prefix: &[Op], depth: usize) -> Res {
    // Stateless: every history is run from the canonical state of the store
    let mut idx = vec![0usize; depth - prefix.len()];
    'outer: loop {
        let hist: Vec<Op> = prefix.iter().copied().chain(idx.iter().map(|&i| all[i])).collect();
        let mut pool: Pool = vec![None; slots];
        reset(32);
        let mut done = hist.len();
        for (n, &op) in hist.iter().enumerate() {
            if !step(&mut pool, op, cs) {
                done = n;
                break;
            }
            // States before the last were checked as shorter histories' last states only when the
            // suffix is all zero, so check every step of that one
            if n + 1 == hist.len() || idx[(n + 1).saturating_sub(prefix.len())..].iter().all(|&i| i == 0) {
                check(t, &pool, &|| format!("{:?}", &hist[..=n]))?;
            }
        }
        // Drop in both orders
        if done % 2 == 0 {
            pool.reverse();
        }
        drop(pool);
        // Next history; a disabled step at position `done` cuts everything below it
        let mut p = if done < hist.len() {
            if done < prefix.len() {
                break 'outer;
            }
            for i in &mut idx[done - prefix.len() + 1..] {
                *i = 0;
            }
            done - prefix.len()
        } else {
            idx.len() - 1
        };
        loop {
            idx[p] += 1;
            if idx[p] < all.len() {
                break;
            }
            idx[p] = 0;
            if p == 0 {
                break 'outer;
            }
            p -= 1;
        }
    }
    Ok(())
}

fn wide(i: u64, kind: u32) -> R {
    match kind {
        0 => R::from_limbs(false, &[i, 1]),
        1 => R::from_limbs(i % 2 == 1, &[u64::MAX - i]),
        2 => R::from_limbs(i % 3 == 0, &[1, i, 7]),
        _ => R::from_limbs(false, &vec![i + 1; 2 + (i % 4) as usize]),
    }
}

fn live_check(t: &mut Tally, live: &[Option<(BigInt, R)>], what: &dyn Fn() -> String) -> Res {
    for (i, v) in live.iter().enumerate() {
        if let Some((b, r)) = v {
            expect(b, r, || format!("value {i} after {}", what()))?;
            t.op();
        }
    }
    t.state();
    Ok(())
}

/// More than one block of the store
const STORED: u64 = 36;

fn main() {
    engine::main(|c| {
        let cs = consts();
        let two = ops(2, cs.len());
        let depth = if c.thorough { 5 } else { 4 };
        c.section("two handles, every history");
        for &a in &two {
            for &b in &two {
                c.case(
                    || format!("every history of {depth} steps that starts with {a:?}, {b:?}"),
                    |t| histories(t, &two, &cs, 2, &[a, b], depth),
                );
            }
        }
        c.section("three handles, every history");
        // One inline and two interned values that share magnitude or slot
        let cs3 = vec![R::from_limbs(false, &[0, 1]), R::from_limbs(true, &[0, 1]), R::from_u128(1 << 62)];
        let three = ops(3, cs3.len());
        let depth = if c.thorough { 5 } else { 4 };
        for &a in &three {
            c.case(
                || format!("every history of {depth} steps that starts with {a:?}"),
                |t| histories(t, &three, &cs3, 3, &[a], depth),
            );
        }

        // More live values than one chunk of the store holds
        c.section("many live values, one replaced");
        let sizes: &[u64] = if c.thorough {
            &[1, 2, 3, 16, 30, 31, 32, 33, 34, 63, 64, 65, 66, 95, 96, 97, 100, 127, 128, 129, 160, 161, 255, 256, 257, 300, 512, 513]
        } else {
            &[2, 31, 32, 33, 34, 63, 64, 65, 66, 97, 128, 129, 161, 256, 257]
        };
        for &n in sizes {
            for kind in 0..4 {
                c.case(
                    || format!("{n} live values of kind {kind}: each one replaced, cloned, dropped and created again"),
                    |t| {
                        let mut live: Vec<Option<(BigInt, R)>> = (0..n)
                            .map(|i| wide(i, kind))
                            .map(|r| Some((mk(&r), r)))
                            .collect();
                        live_check(t, &live, &|| "creation".into())?;
                        for i in 0..n as usize {
                            // Drop, then create something else
                            live[i] = None;
                            live_check(t, &live, &|| format!("dropping {i}"))?;
                            let r = wide(1000 + i as u64, 0);
                            let b = mk(&r);
                            live_check(t, &live, &|| format!("replacing {i}"))?;
                            expect(&b, &r, || format!("replacement of {i}"))?;
                            for (j, v) in live.iter().enumerate() {
                                if let Some((w, rw)) = v {
                                    want_eq!(t, &b == w, r == *rw, "equality of the replacement of {i} with {j}");
                                }
                            }
                            let again = wide(i as u64, kind);
                            let x = mk(&again);
                            drop(b);
                            let y = x.clone();
                            let z = mk(&again);
                            want!(t, x == y && y == z, "value {i} created again is not equal to itself");
                            drop(x);
                            drop(y);
                            live[i] = Some((z, again));
                            live_check(t, &live, &|| format!("recreating {i}"))?;
                        }
                        Ok(())
                    },
                );
            }
        }

        c.section("many live values, every pair dropped");
        let sizes: &[u64] = if c.thorough { &[4, 33, 40, 65, 70] } else { &[4, 34, 66] };
        for &n in sizes {
            for i in 0..n as usize {
                c.case(
                    || format!("{n} live values, {i} and every other one dropped and recreated in both orders"),
                    |t| {
                        reset(96);
                        let mut live: Vec<Option<(BigInt, R)>> =
                            (0..n).map(|i| wide(i, 0)).map(|r| Some((mk(&r), r))).collect();
                        for j in 0..n as usize {
                            if i == j {
                                continue;
                            }
                            for order in [false, true] {
                                live[i] = None;
                                live[j] = None;
                                let fr = fresh();
                                let filler = BigInt::from(fr);
                                let (a, b) = if order { (i, j) } else { (j, i) };
                                for k in [a, b] {
                                    let r = wide(k as u64, 0);
                                    live[k] = Some((mk(&r), r));
                                }
                                expect(&filler, &R::from_u128(fr), || format!("filler after dropping {i}, {j}"))?;
                                live_check(t, &live, &|| format!("dropping {i}, {j}, creating another and recreating {a}, {b}"))?;
                            }
                        }
                        Ok(())
                    },
                );
            }
        }

        c.section("many clones");
        for n in [1usize, 2, 3, 127, 128, 129, 255, 256, 257, 1000, 40_000, 70_000] {
            c.case(
                || format!("{n} clones of one value, dropped down to one and to zero"),
                |t| {
                    let r = R::from_limbs(true, &[n as u64, 77]);
                    let x = mk(&r);
                    let mut v: Vec<BigInt> = (0..n).map(|_| x.clone()).collect();
                    let mut others = vec![];
                    while let Some(y) = v.pop() {
                        drop(y);
                        if v.len() < 3 || v.len() % 97 == 0 {
                            let f = fresh();
                            others.push((BigInt::from(f), R::from_u128(f)));
                            expect(&x, &r, || format!("original with {} clones left", v.len()))?;
                            t.op();
                            if others.len() > 4 {
                                others.remove(0);
                            }
                            for (b, r) in &others {
                                expect(b, r, || format!("unrelated value with {} clones left", v.len()))?;
                            }
                        }
                    }
                    expect(&x, &r, || "original with no clones left".into())?;
                    drop(x);
                    for (b, r) in &others {
                        expect(b, r, || "unrelated value with no clones left".into())?;
                        t.op();
                    }
                    Ok(())
                },
            );
        }

        c.section("small values that equal the indices of stored ones");
        for k in 0..STORED as usize {
            c.case(
                || format!("stored value {k} of {STORED} with every small value"),
                |t| {
                    let stored = stored(STORED);
                    let (a, ra) = &stored[k];
                    for rb in near_indices(STORED) {
                        // The small one becomes the stored one, and goes
                        let mut b = mk(&rb);
                        want!(t, *a != b, "{ra:?} equals {rb:?}");
                        b.clone_from(a);
                        let filler = fresh();
                        let f = BigInt::from(filler);
                        expect(&b, ra, || format!("{rb:?} after clone_from {ra:?}"))?;
                        want!(t, *a == b, "{ra:?} is not equal to what was cloned from it over {rb:?}");
                        drop(b);
                        let g = BigInt::from(fresh());
                        expect(a, ra, || format!("after it was cloned over {rb:?}, which was dropped"))?;
                        // The stored one becomes small
                        let mut c = a.clone();
                        c.clone_from(&mk(&rb));
                        expect(&c, &rb, || format!("clone of {ra:?} after clone_from {rb:?}"))?;
                        let mut c = a.clone();
                        let mut d = mk(&rb);
                        std::mem::swap(&mut c, &mut d);
                        expect(&d, ra, || format!("{ra:?} swapped with {rb:?}"))?;
                        c = d;
                        expect(&c, ra, || format!("{ra:?} moved over {rb:?}"))?;
                        drop(c);
                        expect(&f, &R::from_u128(filler), || "unrelated value".into())?;
                        expect(a, ra, || format!("after histories with {rb:?}"))?;
                        drop((f, g));
                        t.ops += 8;
                        t.states += 1;
                    }
                    for (x, r) in &stored {
                        expect(x, r, || format!("stored value {r:?} changed"))?;
                    }
                    Ok(())
                },
            );
        }

        // Repeating anything with new values each time must not grow the store
        c.section("storage growth");
        type Body = fn(&BigInt, &BigInt);
        let bodies: Vec<(&str, Body)> = vec![
            ("create and drop", |_, _| {}),
            ("clone", |a, _| drop(a.clone())),
            ("two clones", |a, b| drop((a.clone(), a.clone(), b.clone()))),
            ("clone_from", |a, b| { let mut x = a.clone(); x.clone_from(b); }),
            ("neg", |a, _| drop(-a.clone())),
            ("neg ref", |a, _| drop(-a)),
            ("abs", |a, _| drop((-a).abs())),
            ("add", |a, b| drop(a + b)),
            ("add owned", |a, b| drop(a.clone() + b.clone())),
            ("add_assign", |a, b| { let mut x = a.clone(); x += b; x += b.clone(); }),
            ("add prim", |a, _| { let mut x = a.clone() + 1u8; x += -5; }),
            ("sub", |a, b| drop(a - b)),
            ("sub owned", |a, b| drop(a.clone() - b.clone())),
            ("sub_assign", |a, b| { let mut x = a.clone(); x -= b; }),
            ("mul", |a, b| drop(a * b)),
            ("mul_assign", |a, b| { let mut x = a.clone(); x *= b; x *= 3; }),
            ("div", |a, b| drop(a / b)),
            ("div_assign", |a, b| { let mut x = a.clone(); x /= b; }),
            ("rem", |a, b| drop(a % b)),
            ("rem_assign", |a, b| { let mut x = a.clone(); x %= b; }),
            ("shl", |a, _| drop(a << BigInt::from(70))),
            ("shr", |a, _| drop(a >> BigInt::from(3))),
            ("shr neg", |a, _| drop(-a >> BigInt::from(3))),
            ("and or xor not", |a, b| drop((a & b, a | b, a ^ b, !a.clone()))),
            ("pow", |a, _| drop(a.clone().pow(BigInt::from(5)))),
            ("compare", |a, b| { let _ = (a == b, a < b, a.clone().max(b.clone()), *a == 5, *a > u128::MAX); }),
            ("format", |a, _| drop((format!("{a}"), format!("{a:x}"), format!("{a:b}"), format!("{a:?}")))),
            ("parse", |a, _| drop(BigInt::from_str_radix(&format!("{a}"), 10))),
            ("parse error", |a, _| drop(BigInt::from_str_radix(&format!("{a}?"), 10))),
            ("convert", |a, _| { let _ = (u64::try_from(a).is_ok(), i128::try_from(a.clone()).is_ok(), a.approx_float()); }),
            ("divide by zero", |a, _| { let _ = catch(|| a / BigInt::from(0)); let _ = catch(|| a.clone() % 0); }),
            ("take", |a, _| { let mut x = a.clone(); drop(std::mem::take(&mut x)); }),
        ];
        let rounds = if c.thorough { 4000 } else { 600 };
        for held in [0u64, 1, 31, 32, 33, 63, 70] {
            for (name, body) in &bodies {
                c.case(
                    || format!("{name}, {rounds} times with new values while {held} others are live"),
                    |t| {
                        let keep: Vec<(BigInt, R)> = (0..held).map(|i| wide(i, 2)).map(|r| (mk(&r), r)).collect();
                        let round = || {
                            let (x, y) = (fresh(), fresh());
                            let (a, b) = (BigInt::from(x), BigInt::from(y) * BigInt::from(x));
                            body(&a, &b);
                            let ok = is(&a, &R::from_u128(x));
                            (ok, x)
                        };
                        // Enough rounds that every slot has been taken
                        for _ in 0..200 {
                            round();
                        }
                        let before = heap::live();
                        for i in 0..rounds {
                            let (ok, x) = round();
                            want!(t, ok, "round {i}: value {x:#x} changed");
                            let grown = heap::live() - before;
                            // A slot takes 24 bytes and a two-word value 16
                            want!(t, grown < 8192, "the store has grown by {grown} bytes in {i} rounds of {name}");
                        }
                        for (b, r) in &keep {
                            expect(b, r, || "held value".into())?;
                        }
                        t.states += rounds;
                        Ok(())
                    },
                );
            }
        }

        // Last, because the store keeps the slots
        c.section("thousands of live values");
        let sizes: &[u64] = if c.thorough { &[2049, 4097, 8193, 8225, 16_390] } else { &[1025, 8225] };
        for &n in sizes {
            for step in [2usize, 33, 257] {
                c.case(
                    || format!("{n} live values, every {step}th replaced and brought back"),
                    |t| {
                        let mut live: Vec<Option<(BigInt, R)>> = (0..n)
                            .map(|i| R::from_limbs(false, &[i, 1]))
                            .map(|r| Some((BigInt::from(r.to_u128().unwrap()), r)))
                            .collect();
                        live_check(t, &live, &|| "creation".into())?;
                        for i in (0..n as usize).step_by(step) {
                            live[i] = None;
                        }
                        live_check(t, &live, &|| format!("dropping every {step}th"))?;
                        let other: Vec<Option<(BigInt, R)>> = (0..n)
                            .step_by(step)
                            .map(|i| R::from_limbs(false, &[i, 2]))
                            .map(|r| Some((BigInt::from(r.to_u128().unwrap()), r)))
                            .collect();
                        live_check(t, &live, &|| format!("replacing every {step}th"))?;
                        for i in (0..n as usize).step_by(step) {
                            let r = R::from_limbs(false, &[i as u64, 1]);
                            live[i] = Some((BigInt::from(r.to_u128().unwrap()), r));
                        }
                        live_check(t, &live, &|| format!("bringing back every {step}th"))?;
                        live_check(t, &other, &|| "replacements".into())?;
                        for i in (0..n as usize).step_by(7) {
                            let (b, _) = live[i].as_ref().unwrap();
                            want!(t, *b == b.clone() && *b != live[(i + 1) % n as usize].as_ref().unwrap().0, "equality of value {i}");
                        }
                        Ok(())
                    },
                );
            }
        }
    });
}
