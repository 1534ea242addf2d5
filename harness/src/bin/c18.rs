use numeric_ints::I;
use numeric_mc::engine::{self, *};
use numeric_mc::prim::Prim;
use numeric_mc::refint::R;
use numeric_mc::{want, want_eq};
use numeric_reals::Rat;
use numeric_traits::class::{Bounded, BoundedSigned, Integral, Real, Signed};
use numeric_traits::identity::{One, Zero};
use numeric_traits::ops::Gcd;
use std::cmp::Ordering;
use std::collections::{HashSet, VecDeque};

trait Back: Prim + Integral + Gcd<Output = Self> {}
impl<T: Prim + Integral + Gcd<Output = T>> Back for T {}

fn gcd(a: &R, b: &R) -> R {
    let (mut a, mut b) = (a.abs(), b.abs());
    while !b.is_zero() {
        let r = a.div_rem(&b).1;
        a = b;
        b = r;
    }
    a
}

/// Lowest terms, positive denominator
fn reduced(n: &R, d: &R) -> (R, R) {
    let g = gcd(n, d);
    let (n, d) = (n.div_rem(&g).0, d.div_rem(&g).0);
    if d.is_neg() {
        (n.neg(), d.neg())
    } else {
        (n, d)
    }
}

fn pair<T: Back>(x: &Rat<T>) -> (R, R) {
    (x.numerator().r(), x.denominator().r())
}

/// The reduced quotient, if both halves and the common divisor fit
fn exact<T: Back>(n: &R, d: &R) -> Option<(R, R)> {
    if !n.is_zero() && !T::fits(&gcd(n, d)) {
        return None;
    }
    let (n, d) = reduced(n, d);
    (T::fits(&n) && T::fits(&d)).then_some((n, d))
}

fn create<T: Back>(t: &mut Tally, n: T, d: T) -> Res {
    let name = T::NAME;
    t.state();
    if d.is_zero() {
        want!(t, Rat::new(n, d).is_none(), "Rat::<{name}>::new({n}, {d}) is not None");
        return Ok(());
    }
    let Some(want) = exact::<T>(&n.r(), &d.r()) else { return Ok(()) };
    let Some(x) = Rat::new(n, d) else { return Err(format!("Rat::<{name}>::new({n}, {d}) is None")) };
    want_eq!(t, pair(&x), want.clone(), "Rat::<{name}>::new({n}, {d})");
    let (p, q) = x.into_pair();
    want_eq!(t, (p.r(), q.r()), want, "into_pair of Rat::<{name}>::new({n}, {d})");
    Ok(())
}

fn unary<T: Back>(t: &mut Tally, n: T, d: T) -> Res {
    let name = format!("{n}/{d} ({})", T::NAME);
    t.state();
    let x = || Rat::new(n, d).unwrap();
    let (rn, rd) = (n.r(), d.r());
    let one = R::from_i128(1);
    let (q, r) = rn.div_rem(&rd);
    let down = if r.is_neg() { q.sub(&one) } else { q };
    let up = if r.is_zero() { down.clone() } else { down.add(&one) };
    want_eq!(t, pair(&x().ceil()), (up.clone(), one.clone()), "ceil of {name}");
    if !rn.is_neg() {
        want_eq!(t, pair(&x().floor()), (down.clone(), one.clone()), "floor of {name}");
    }
    let above = up.mul(&rd).sub(&rn);
    let below = rn.sub(&down.mul(&rd));
    let round = pair(&x().round());
    let ok = match below.cmp(&above) {
        Ordering::Less => round == (down, one),
        Ordering::Greater => round == (up, one),
        Ordering::Equal => round == (down, one.clone()) || round == (up, one),
    };
    want!(t, ok, "round of {name}: got {round:?}, which is not a nearest integer");
    want_eq!(t, x().is_zero(), rn.is_zero(), "is_zero of {name}");
    want_eq!(t, x().is_one(), rn == rd, "is_one of {name}");
    want!(t, x() == x().clone(), "{name} equals itself");
    want_eq!(t, x() == Rat::zero(), rn.is_zero(), "{name} == zero");
    want_eq!(t, x() == Rat::one(), rn == rd, "{name} == one");
    Ok(())
}

fn signed<T: Back + Signed>(t: &mut Tally, n: T, d: T) -> Res {
    let name = format!("{n}/{d} ({})", T::NAME);
    let x = || Rat::new(n, d).unwrap();
    if T::fits(&n.r().neg()) {
        want_eq!(t, pair(&-x()), (n.r().neg(), d.r()), "negation of {name}");
        want_eq!(t, pair(&Signed::abs(x())), (n.r().abs(), d.r()), "abs of {name}");
    }
    want_eq!(t, Signed::is_negative(&x()), n.r().is_neg(), "is_negative of {name}");
    want_eq!(t, Signed::is_positive(&x()), !n.r().is_neg(), "is_positive of {name}");
    Ok(())
}

fn bounds<T: Back + Bounded>(t: &mut Tally) -> Res {
    let name = T::NAME;
    let one = R::from_i128(1);
    let (lo, hi) = (T::LEAST.r(), T::MOST.r());
    want_eq!(t, pair(&<Rat<T> as Bounded>::min_value()), (lo, one.clone()), "min_value of Rat<{name}>");
    want_eq!(t, pair(&<Rat<T> as Bounded>::max_value()), (hi, one.clone()), "max_value of Rat<{name}>");
    want_eq!(t, pair(&<Rat<T> as Zero>::zero()), (R::from_i128(0), one.clone()), "zero of Rat<{name}>");
    want_eq!(t, pair(&<Rat<T> as One>::one()), (one.clone(), one), "one of Rat<{name}>");
    Ok(())
}

/// Only the integers of the library have these
fn bounds_signed<const N: usize>(t: &mut Tally) -> Res {
    type Q<const N: usize> = Rat<I<N>>;
    let one = <I<N> as One>::one();
    let top = <I<N> as Bounded>::max_value();
    let x = <Q<N> as BoundedSigned>::min_positive();
    want!(t, *x.numerator() == one && *x.denominator() == top, "min_positive of Rat<I<{N}>>");
    let x = <Q<N> as BoundedSigned>::max_negative();
    want!(t, *x.numerator() == -one && *x.denominator() == top, "max_negative of Rat<I<{N}>>");
    let x = <Q<N> as Bounded>::max_value();
    want!(t, *x.numerator() == top && *x.denominator() == one, "max_value of Rat<I<{N}>>");
    let x = <Q<N> as Bounded>::min_value();
    want!(t, *x.numerator() == <I<N> as Bounded>::min_value() && *x.denominator() == one, "min_value of Rat<I<{N}>>");
    Ok(())
}

fn binary<T: Back>(t: &mut Tally, (an, ad): (T, T), (bn, bd): (T, T)) -> Res {
    let name = format!("of {an}/{ad} and {bn}/{bd} ({})", T::NAME);
    t.state();
    let x = || Rat::new(an, ad).unwrap();
    let y = || Rat::new(bn, bd).unwrap();
    let (an, ad, bn, bd) = (an.r(), ad.r(), bn.r(), bd.r());
    let fits = T::fits;
    want_eq!(t, x() == y(), an == bn && ad == bd, "== {name}");
    let (l, r, den) = (an.mul(&bd), bn.mul(&ad), ad.mul(&bd));
    if fits(&l) && fits(&r) && fits(&den) {
        for (op, v) in [("+", l.add(&r)), ("-", l.sub(&r))] {
            if !fits(&v) {
                continue;
            }
            if let Some(want) = exact::<T>(&v, &den) {
                let got = if op == "+" { x() + y() } else { x() - y() };
                want_eq!(t, pair(&got), want, "{op} {name}");
            }
        }
    }
    let num = an.mul(&bn);
    if fits(&num) && fits(&den) {
        if let Some(want) = exact::<T>(&num, &den) {
            want_eq!(t, pair(&(x() * y())), want, "* {name}");
        }
    }
    if bn.is_zero() {
        must_panic(|| format!("/ {name}"), || x() / y())?;
    } else if fits(&l) && fits(&r) {
        if let Some(want) = exact::<T>(&l, &r) {
            want_eq!(t, pair(&(x() / y())), want, "/ {name}");
        }
    }
    Ok(())
}

/// Every rational of an 8 bit type
fn every<T: Back>() -> Vec<(T, T)> {
    let mut v = Vec::new();
    for d in T::all() {
        for n in T::all() {
            if d.r().is_neg() || d.is_zero() {
                continue;
            }
            if exact::<T>(&n.r(), &d.r()) == Some((n.r(), d.r())) {
                v.push((n, d));
            }
        }
    }
    v
}

fn some<T: Back>(level: u32) -> Vec<(T, T)> {
    let e = T::edges(level);
    let mut v = Vec::new();
    let mut seen = HashSet::new();
    for d in &e {
        for n in &e {
            if d.is_zero() {
                continue;
            }
            if let Some((p, q)) = exact::<T>(&n.r(), &d.r()) {
                let x = (T::of(&p).unwrap(), T::of(&q).unwrap());
                if seen.insert(x) {
                    v.push(x);
                }
            }
        }
    }
    v
}

macro_rules! small {
    ($c:ident: $($t:ident $sig:ident)*) => {$({
        $c.section(concat!("every Rat<", stringify!($t), ">: creation"));
        for n in <$t as Prim>::all() {
            $c.case(|| format!("numerator {n}, every denominator"), |t| {
                for d in <$t as Prim>::all() {
                    create(t, n, d)?;
                }
                Ok(())
            });
        }
        let all = every::<$t>();
        $c.section(concat!("every Rat<", stringify!($t), ">: unary operations"));
        for ch in all.chunks(64) {
            $c.case(|| format!("64 values from {:?}", ch[0]), |t| {
                for &(n, d) in ch {
                    unary(t, n, d)?;
                    sig!($sig t n d);
                }
                Ok(())
            });
        }
        $c.section(concat!("every pair of Rat<", stringify!($t), "> with products that fit"));
        let (lo, hi) = ($t::MIN as i32, $t::MAX as i32);
        let ok = |v: i32| v >= lo && v <= hi;
        for &a in &all {
            $c.case(|| format!("{}/{} with every second operand", a.0, a.1), |t| {
                let (an, ad) = (a.0 as i32, a.1 as i32);
                for &b in &all {
                    let (bn, bd) = (b.0 as i32, b.1 as i32);
                    let cross = ok(an * bd) && ok(bn * ad);
                    let den = ok(ad * bd);
                    if (cross && den) || (ok(an * bn) && den) || cross {
                        binary(t, a, b)?;
                    }
                }
                Ok(())
            });
        }
    })*};
}

macro_rules! sig {
    (s $t:ident $n:ident $d:ident) => {
        signed($t, $n, $d)?
    };
    (u $t:ident $n:ident $d:ident) => {};
}

macro_rules! wide {
    ($c:ident: $($t:ident $sig:ident)*) => {$({
        $c.section(concat!("Rat<", stringify!($t), ">: creation"));
        let e = <$t as Prim>::edges(3);
        for &n in &e {
            $c.case(|| format!("numerator {n}, every denominator"), |t| {
                for &d in &e {
                    create(t, n, d)?;
                }
                Ok(())
            });
        }
        let un = some::<$t>(2);
        $c.section(concat!("Rat<", stringify!($t), ">: unary operations"));
        for ch in un.chunks(64) {
            $c.case(|| format!("64 values from {:?}", ch[0]), |t| {
                for &(n, d) in ch {
                    unary(t, n, d)?;
                    sig!($sig t n d);
                }
                Ok(())
            });
        }
        $c.section(concat!("Rat<", stringify!($t), ">: pairs"));
        let mut vals = some::<$t>($c.thorough as u32);
        let keep = if $c.thorough { 1500 } else { 420 };
        // Simplest first: products of large values rarely fit
        vals.sort_by_key(|x| x.0.r().bit_len() + x.1.r().bit_len());
        let step = vals.len().div_ceil(keep).max(1);
        let vals: Vec<_> = vals.into_iter().enumerate().filter(|(i, _)| *i < keep / 2 || i % step == 0).map(|x| x.1).collect();
        for &a in &vals {
            $c.case(|| format!("{}/{} with every second operand", a.0, a.1), |t| {
                for &b in &vals {
                    binary(t, a, b)?;
                }
                Ok(())
            });
        }
        $c.section(concat!("Rat<", stringify!($t), ">: every fraction of small parts"));
        let part: Vec<$t> = (-13i128..=13).filter_map(|v| $t::try_from(v).ok()).collect();
        for &n in &part {
            for &d in &part {
                $c.case(|| format!("{n}/{d} with every fraction"), |t| {
                    create(t, n, d)?;
                    let Some(a) = Rat::new(n, d) else { return Ok(()) };
                    let (an, ad) = reduced(&n.r(), &d.r());
                    let a0 = (a.into_pair().0, a.into_pair().1);
                    for &p in &part {
                        for &q in &part {
                            let Some(b) = Rat::new(p, q) else { continue };
                            let (bn, bd) = reduced(&p.r(), &q.r());
                            want_eq!(t, a == b, an == bn && ad == bd, "{n}/{d} == {p}/{q} ({})", stringify!($t));
                            binary(t, a0, b.into_pair())?;
                        }
                    }
                    Ok(())
                });
            }
        }
    })*};
}

fn histories(c: &mut Ctx, depth: usize) {
    c.section("histories of operations on one Rat<i64>");
    let al: Vec<(i64, i64)> = vec![(0, 1), (1, 1), (-1, 1), (1, 2), (-2, 3), (3, 1), (-5, 4), (6, 35), (-7, 10)];
    for &start in &al {
        for first in 0..al.len() * 4 + 2 {
            c.case(|| format!("histories of up to {depth} operations from {start:?}, first operation {first}"), |t| {
                let mut seen = HashSet::new();
                let mut todo = VecDeque::from([(start, 0usize)]);
                while let Some((x, dep)) = todo.pop_front() {
                    for op in 0..al.len() * 4 + 2 {
                        if dep == 0 && op != first {
                            continue;
                        }
                        let a = Rat::new(x.0, x.1).unwrap();
                        let (n, d) = (x.0 as i128, x.1 as i128);
                        let (p, q) = al[op / 4 % al.len()];
                        let b = Rat::new(p, q).unwrap();
                        let (p, q) = (p as i128, q as i128);
                        let (got, num, den) = if op >= al.len() * 4 {
                            if op % 2 == 0 { (-a, -n, d) } else { (Signed::abs(a), n.abs(), d) }
                        } else {
                            match op % 4 {
                                0 => (a + b, n * q + p * d, d * q),
                                1 => (a - b, n * q - p * d, d * q),
                                2 => (a * b, n * p, d * q),
                                _ if p == 0 => continue,
                                _ => (a / b, n * q, d * p),
                            }
                        };
                        let (wn, wd) = reduced(&R::from_i128(num), &R::from_i128(den));
                        want_eq!(t, pair(&got), (wn.clone(), wd.clone()), "operation {op} on {x:?}");
                        let next = (i64::of(&wn).unwrap(), i64::of(&wd).unwrap());
                        if dep + 1 < depth && seen.insert(next) {
                            t.state();
                            todo.push_back((next, dep + 1));
                        }
                    }
                }
                Ok(())
            });
        }
    }
}

fn main() {
    engine::main(|c| {
        small!(c: i8 s u8 u);
        wide!(c: i16 s u16 u i32 s u32 u i64 s u64 u i128 s u128 u isize s usize u);
        c.section("identities and bounds");
        macro_rules! b {
            ($f:ident: $($t:ident)*) => {$( c.case(|| format!("Rat<{}>", stringify!($t)), |t| $f::<$t>(t)); )*};
        }
        b!(bounds: i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize);
        c.case(|| "Rat<I<N>>".into(), |t| {
            bounds_signed::<1>(t)?;
            bounds_signed::<2>(t)?;
            bounds_signed::<4>(t)?;
            bounds_signed::<8>(t)?;
            bounds_signed::<9>(t)
        });
        histories(c, if c.thorough { 5 } else { 3 });
    });
}
