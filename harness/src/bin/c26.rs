//! Real-number and trigonometric operations on f32 and f64
use numeric_compounds::complex::Complex;
use numeric_compounds::vector::Vector;
use numeric_mc::engine::{self, *};
use numeric_mc::refint::R;
use numeric_mc::{want, want_eq};
use numeric_traits::class::{Numeric, Real, Signed};
use numeric_traits::identity::{One, Zero};
use numeric_traits::ops::{Pow, TrigOps};
use std::ops::*;

/// A float type, with integer views of it
trait Flt: Real + Signed + TrigOps + Copy + std::fmt::Debug + 'static {
    const NAME: &'static str;
    /// Stored mantissa bits
    const M: u32;
    const EXPS: u32;
    /// Relative error a chain of a few operations may have
    const TOL: f64;
    fn of_bits(b: u64) -> Self;
    fn bits(self) -> u64;
    fn finite(self) -> bool;
    /// Exact for both types
    fn wide(self) -> f64;
    fn narrow(v: f64) -> Self;
}
macro_rules! flt {
    ($t:ident $u:ident $m:literal $e:literal $tol:literal) => {
        impl Flt for $t {
            const NAME: &'static str = stringify!($t);
            const M: u32 = $m;
            const EXPS: u32 = $e;
            const TOL: f64 = $tol;
            fn of_bits(b: u64) -> $t {
                $t::from_bits(b as $u)
            }
            fn bits(self) -> u64 {
                self.to_bits() as u64
            }
            fn finite(self) -> bool {
                self.is_finite()
            }
            fn wide(self) -> f64 {
                self as f64
            }
            fn narrow(v: f64) -> $t {
                v as $t
            }
        }
    };
}
flt!(f32 u32 23 255 2e-5);
flt!(f64 u64 52 2047 1e-12);

/// The integers around a float, as floats: (down, up). Works on the bit pattern only.
fn around<F: Flt>(x: F) -> (F, F) {
    let b = x.bits();
    let sign = 1u64 << (F::M + if F::M == 23 { 8 } else { 11 });
    let neg = b & sign != 0;
    let mag = b & (sign - 1);
    let bias = (F::EXPS / 2) as i64;
    let e = (mag >> F::M) as i64 - bias;
    let one = (bias as u64) << F::M;
    let (lo, hi) = if mag == 0 || e >= F::M as i64 {
        (mag, mag)
    } else if e < 0 {
        (0, one)
    } else {
        let frac = (1u64 << (F::M as i64 - e)) - 1;
        // A carry out of the mantissa moves to the next exponent, as it should
        (mag & !frac, if mag & frac == 0 { mag } else { (mag & !frac) + frac + 1 })
    };
    if neg {
        (F::of_bits(hi | sign), F::of_bits(lo | sign))
    } else {
        (F::of_bits(lo), F::of_bits(hi))
    }
}

/// Rounding and sign operations, which are exact
fn exact<F: Flt>(t: &mut Tally, x: F) -> Res {
    let (down, up) = around(x);
    let n = F::NAME;
    let neg = x < F::zero();
    let toward = if neg { up } else { down };
    want_eq!(t, Real::floor(x), down, "floor of {x:?} ({n})");
    want_eq!(t, Real::ceil(x), up, "ceil of {x:?} ({n})");
    want_eq!(t, Real::trunc(x), toward, "trunc of {x:?} ({n})");
    // Both are exact: the parts have no bits below the last one of x
    let frac = x - toward;
    want_eq!(t, Real::fract(x), frac, "fract of {x:?} ({n})");
    let round = Real::round(x);
    let (below, above) = (x - down, up - x);
    let ok = if below < above {
        round == down
    } else if below > above {
        round == up
    } else {
        round == down || round == up
    };
    want!(t, ok, "round of {x:?} ({n}): got {round:?}, which is not a nearest whole number");
    want_eq!(t, Signed::abs(x), if neg { -x } else { x }, "abs of {x:?} ({n})");
    want_eq!(t, Signed::is_negative(&x), neg, "is_negative of {x:?} ({n})");
    want_eq!(t, Signed::is_positive(&x), !neg, "is_positive of {x:?} ({n})");
    Ok(())
}

/// Every sign and exponent, mantissas at the boundaries and around every power of two
fn shapes<F: Flt>(dense: bool) -> Vec<F> {
    let mut man = vec![0u64];
    let full = (1u64 << F::M) - 1;
    for k in 0..F::M {
        let b = 1u64 << k;
        if dense || k < 2 || k + 4 > F::M || k % 7 == 0 {
            man.extend([b, full ^ b, b - 1, full & !(b - 1), full & (0x5555_5555_5555_5555 << k)]);
        }
    }
    man.push(full);
    man.sort();
    man.dedup();
    let top = if F::M == 23 { 8 } else { 11 };
    let mut v = Vec::new();
    for e in 0..F::EXPS as u64 {
        for &m in &man {
            let b = e << F::M | m;
            v.push(F::of_bits(b));
            v.push(F::of_bits(b | 1 << (F::M + top)));
        }
    }
    v
}

/// A positive finite float as m * 2^e
fn parts(x: f64) -> (R, i64) {
    let b = x.to_bits();
    let (e, m) = ((b >> 52) as i64, b & ((1 << 52) - 1));
    if e == 0 {
        (R::from_u128(m as u128), -1074)
    } else {
        (R::from_u128((m | 1 << 52) as u128), e - 1075)
    }
}

/// x^n compared with y, exactly, for positive x and y
fn power_cmp(x: f64, n: u32, y: f64) -> std::cmp::Ordering {
    let ((m, e), (p, q)) = (parts(x), parts(y));
    let (l, le) = (m.pow(n), e * n as i64);
    let (low, bits) = (le.min(q), l.bit_len() as i64 + le - (p.bit_len() as i64 + q));
    // Far apart: the bit lengths decide
    if bits.abs() > 1 && !l.is_zero() && !p.is_zero() {
        return bits.cmp(&0);
    }
    l.shl((le - low) as usize).cmp(&p.shl((q - low) as usize))
}

/// r is within k units in the last place of the nth root of x, both not negative
fn root_ok<F: Flt>(x: F, n: u32, r: F, k: u64) -> bool {
    use std::cmp::Ordering::*;
    if x.is_zero() {
        return r.is_zero();
    }
    let b = r.bits();
    let top = if F::M == 23 { 8 } else { 11 };
    if !r.finite() || b >> (F::M + top) != 0 || b <= k {
        return false;
    }
    power_cmp(F::of_bits(b - k).wide(), n, x.wide()) != Greater && power_cmp(F::of_bits(b + k).wide(), n, x.wide()) != Less
}

fn roots<F: Flt>(t: &mut Tally, x: F) -> Res {
    let n = F::NAME;
    if x >= F::zero() {
        let r = Real::sqrt(x);
        want!(t, root_ok(x, 2, r, 2), "sqrt of {x:?} ({n}): got {r:?}");
    }
    let r = Real::cbrt(x);
    let a = if x < F::zero() { -x } else { x };
    let m = if x < F::zero() { -r } else { r };
    want!(t, root_ok(a, 3, m, 3), "cbrt of {x:?} ({n}): got {r:?}");
    Ok(())
}

/// Equal up to the tolerance, relative to the expected value. Values past either end of the
/// range of the type may be the limit.
fn close<F: Flt>(got: F, want: f64, tol: f64) -> bool {
    let w = F::narrow(want);
    if want.is_nan() {
        return got.wide().is_nan();
    }
    let tiny = F::of_bits(2 << F::M).wide();
    let huge = F::of_bits((F::EXPS as u64 - 1) << F::M).wide();
    if want.abs() < tiny {
        return got.wide().abs() <= 2.0 * tiny;
    }
    if !w.finite() || want.abs() > huge {
        return got.wide().abs() >= huge * 0.99 && (got.wide() > 0.0) == (want > 0.0);
    }
    got.finite() && (got.wide() - want).abs() <= tol * want.abs()
}

fn trig<F: Flt>(t: &mut Tally, x: F) -> Res {
    let n = F::NAME;
    let w = x.wide();
    let tol = F::TOL;
    want!(t, close(TrigOps::sin(x), w.sin(), tol), "sin of {x:?} ({n}): got {:?}, expected {}", TrigOps::sin(x), w.sin());
    want!(t, close(TrigOps::cos(x), w.cos(), tol), "cos of {x:?} ({n}): got {:?}, expected {}", TrigOps::cos(x), w.cos());
    want!(t, close(TrigOps::tan(x), w.tan(), tol), "tan of {x:?} ({n}): got {:?}, expected {}", TrigOps::tan(x), w.tan());
    want!(t, close(TrigOps::sec(x), 1.0 / w.cos(), tol), "sec of {x:?} ({n}): got {:?}", TrigOps::sec(x));
    if !x.is_zero() {
        want!(t, close(TrigOps::csc(x), 1.0 / w.sin(), tol), "csc of {x:?} ({n}): got {:?}", TrigOps::csc(x));
        want!(t, close(TrigOps::cot(x), 1.0 / w.tan(), tol), "cot of {x:?} ({n}): got {:?}", TrigOps::cot(x));
    }
    // Independent of any library: the unit circle
    let (s, c) = (TrigOps::sin(x).wide(), TrigOps::cos(x).wide());
    want!(t, (s * s + c * c - 1.0).abs() <= tol, "sin^2 + cos^2 of {x:?} ({n}) is {}", s * s + c * c);
    Ok(())
}

fn powers<F: Flt>(t: &mut Tally, x: F, y: F) -> Res {
    let n = F::NAME;
    let (a, b) = (x.wide(), y.wide());
    if a > 0.0 || (a < 0.0 && b.fract() == 0.0) || (a == 0.0 && b >= 0.0) {
        // The error of the exponent is scaled by ln a * b, at most 745
        let want = a.powf(b);
        let got = Pow::pow(x, y);
        want!(t, close(got, want, F::TOL), "{x:?} to the power {y:?} ({n}): got {got:?}, expected {want}");
    }
    if a > 0.0 && b > 0.0 && b != 1.0 {
        let want = a.ln() / b.ln();
        let got = Real::log(x, y);
        let ok = if a == 1.0 { got.is_zero() } else { close(got, want, F::TOL) };
        want!(t, ok, "log of {x:?} to the base {y:?} ({n}): got {got:?}, expected {want}");
    }
    if a >= 0.0 && b.abs() >= 0.5 && (a > 0.0 || b > 0.0) {
        let want = a.powf(1.0 / b);
        let got = Real::root(x, y);
        want!(t, close(got, want, F::TOL), "root {y:?} of {x:?} ({n}): got {got:?}, expected {want}");
    }
    Ok(())
}

/// A real number type that leaves the roots to the provided methods
#[derive(Clone, Copy, PartialEq, PartialOrd, Debug)]
struct W(f64);
macro_rules! wop {
    ($($tr:ident $f:ident)*) => {$(
        impl $tr for W {
            type Output = W;
            fn $f(self, o: W) -> W {
                W($tr::$f(self.0, o.0))
            }
        }
    )*};
}
wop!(Add add Sub sub Mul mul Div div Rem rem);
macro_rules! wopa {
    ($($tr:ident $f:ident)*) => {$(
        impl $tr for W {
            fn $f(&mut self, o: W) {
                $tr::$f(&mut self.0, o.0)
            }
        }
    )*};
}
wopa!(AddAssign add_assign SubAssign sub_assign MulAssign mul_assign DivAssign div_assign RemAssign rem_assign);
impl Zero for W {
    fn zero() -> W {
        W(0.0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0.0
    }
}
impl One for W {
    fn one() -> W {
        W(1.0)
    }
    fn is_one(&self) -> bool {
        self.0 == 1.0
    }
}
impl Pow for W {
    type Output = W;
    fn pow(self, o: W) -> W {
        W(self.0.powf(o.0))
    }
}
impl Numeric for W {}
impl Real for W {
    fn floor(self) -> W {
        W(self.0.floor())
    }
    fn ceil(self) -> W {
        W(self.0.ceil())
    }
    fn round(self) -> W {
        W(self.0.round())
    }
    fn trunc(self) -> W {
        W(self.0.trunc())
    }
    fn fract(self) -> W {
        W(self.0.fract())
    }
    fn log(self, b: W) -> W {
        W(self.0.log(b.0))
    }
}

fn provided(t: &mut Tally, x: f64) -> Res {
    let s = Real::sqrt(W(x)).0;
    want!(t, close(s, x.sqrt(), 1e-12), "provided sqrt of {x:?}: got {s:?}");
    let s = Real::cbrt(W(x)).0;
    want!(t, close(s, x.cbrt(), 1e-12), "provided cbrt of {x:?}: got {s:?}");
    for k in [1.0, 2.0, 3.0, 4.0, 5.0, 7.0, 10.0, 0.5, -1.0, -2.0, -3.0] {
        if x == 0.0 && k < 0.0 {
            continue;
        }
        let s = Real::root(W(x), W(k)).0;
        want!(t, close(s, x.powf(1.0 / k), 1e-12), "provided root {k} of {x:?}: got {s:?}");
    }
    Ok(())
}

/// Values whose squares stay in range
fn middling<F: Flt>() -> Vec<F> {
    let mut v = vec![0.0, -0.0];
    for m in [1.0, 1.5, 3.0, 1.0 + 1.0 / 1024.0, 0.1, 5.0 / 3.0] {
        for e in [-40, -20, -1, 0, 1, 4, 12, 40] {
            v.push(m * 2f64.powi(e));
            v.push(-m * 2f64.powi(e));
        }
    }
    v.into_iter().map(F::narrow).collect()
}

fn lengths<F: Flt>(c: &mut Ctx) {
    let v = middling::<F>();
    c.section(&format!("Complex<{}> magnitudes", F::NAME));
    for &a in &v {
        c.case(|| format!("real part {a:?}, every imaginary part"), |t| {
            for &b in &v {
                let want = (a.wide() * a.wide() + b.wide() * b.wide()).sqrt();
                let got = Complex::new(a, b).abs();
                want!(t, close(got, want, F::TOL), "abs of {a:?} + {b:?}i: got {got:?}, expected {want}");
            }
            Ok(())
        });
    }
    c.section(&format!("Vector<{}, N> distances", F::NAME));
    for &a in &v {
        c.case(|| format!("first component {a:?}"), |t| {
            for &b in &v {
                one_apart::<F, 1>(t, a, b, a)?;
                for &d in v.iter().step_by(5) {
                    one_apart::<F, 2>(t, a, b, d)?;
                    one_apart::<F, 3>(t, a, b, d)?;
                    one_apart::<F, 5>(t, a, b, d)?;
                }
            }
            Ok(())
        });
    }
}

/// Components cycle through a, b, d on the left and b, d, a on the right
fn one_apart<F: Flt, const N: usize>(t: &mut Tally, a: F, b: F, d: F) -> Res {
    let l: [F; N] = std::array::from_fn(|i| [a, b, d][i % 3]);
    let r: [F; N] = std::array::from_fn(|i| [b, d, a][i % 3]);
    let mut sum = 0.0;
    for i in 0..N {
        // Rounded in the type, as any implementation does
        let x = (l[i] - r[i]).wide();
        sum += x * x;
    }
    let got = Vector::distance(Vector::new(l), Vector::new(r));
    want!(t, close(got, sum.sqrt(), F::TOL), "distance of {l:?} and {r:?}: got {got:?}, expected {}", sum.sqrt());
    Ok(())
}

fn float<F: Flt>(c: &mut Ctx, dense: bool) {
    let n = F::NAME;
    let all = shapes::<F>(dense);
    c.section(&format!("{n}: rounding and sign"));
    for ch in all.chunks(2048) {
        c.case(|| format!("2048 values from {:?}", ch[0]), |t| {
            for &x in ch {
                t.state();
                exact(t, x)?;
            }
            Ok(())
        });
    }
    c.section(&format!("{n}: rounding near whole numbers"));
    for i in -600i64..=600 {
        c.case(|| format!("{i} and its neighbours"), |t| {
            for q in 0..16 {
                let x = F::narrow(i as f64 + q as f64 / 16.0);
                for d in 0..=4u64 {
                    for y in [x.bits().wrapping_add(d), x.bits().wrapping_sub(d)] {
                        let y = F::of_bits(y);
                        if y.finite() {
                            exact(t, y)?;
                        }
                    }
                }
            }
            Ok(())
        });
    }
    c.section(&format!("{n}: square and cube roots"));
    for ch in all.chunks(1024) {
        c.case(|| format!("1024 values from {:?}", ch[0]), |t| {
            for &x in ch {
                roots(t, x)?;
            }
            Ok(())
        });
    }
    for i in 0..64u64 {
        c.case(|| format!("squares and cubes of {}..", i * 64), |t| {
            for k in i * 64..i * 64 + 64 {
                let (s, q) = ((k * k) as f64, (k * k * k) as f64);
                for v in [s, q, -q] {
                    // Whether exact in the type or not
                    roots(t, F::narrow(v))?;
                }
                if s < 2f64.powi(F::M as i32) {
                    want_eq!(t, Real::sqrt(F::narrow(s)), F::narrow(k as f64), "sqrt of {s} ({n})");
                }
            }
            Ok(())
        });
    }
    c.section(&format!("{n}: trigonometry"));
    let sub: Vec<F> = all.iter().copied().collect();
    for ch in sub.chunks(1024) {
        c.case(|| format!("1024 values from {:?}", ch[0]), |t| {
            for &x in ch {
                trig(t, x)?;
            }
            Ok(())
        });
    }
    for i in -720i64..=720 {
        c.case(|| format!("{i} degrees"), |t| {
            let x = F::narrow((i as f64).to_radians());
            trig(t, x)?;
            for d in 1..=3u64 {
                if x.bits() & 0xff > 3 {
                    trig(t, F::of_bits(x.bits() + d))?;
                    trig(t, F::of_bits(x.bits() - d))?;
                }
            }
            Ok(())
        });
    }
    c.section(&format!("{n}: powers, logarithms and roots"));
    let mut base: Vec<F> = vec![F::zero()];
    for e in 0..F::EXPS as u64 {
        let every = if F::M == 23 { 4 } else { 64 };
        let mid = (F::EXPS / 2) as u64;
        if e % every == 0 || e.abs_diff(mid) < 6 {
            for m in [0, 1, 1 << (F::M - 1), (1 << F::M) - 1, 0x1234567 & ((1 << F::M) - 1)] {
                base.push(F::of_bits(e << F::M | m));
            }
        }
    }
    let mut exps: Vec<F> = Vec::new();
    for v in [0.0, 0.1, 0.25, 1.0 / 3.0, 0.5, 0.75, 1.0, 1.5, 2.0, 2.5, 3.0, 4.0, 5.0, 7.0, 8.0, 10.0, 16.0, 31.0, 32.0, 33.0, 63.0, 64.0, 100.0, 127.0, 128.0, 500.0, 1000.0] {
        exps.extend([F::narrow(v), F::narrow(-v)]);
    }
    for &x in &base {
        c.case(|| format!("of {x:?} and its negation"), |t| {
            for &y in &exps {
                powers(t, x, y)?;
                powers(t, -x, y)?;
            }
            for &y in base.iter().step_by(3) {
                if x > F::zero() && y > F::zero() {
                    powers(t, x, y)?;
                }
            }
            Ok(())
        });
    }
    lengths::<F>(c);
}

fn main() {
    engine::main(|c| {
        float::<f32>(c, true);
        float::<f64>(c, c.thorough);
        c.section("provided roots of a type that defines only pow");
        for ch in shapes::<f64>(c.thorough).chunks(1024) {
            c.case(|| format!("1024 values from {:?}", ch[0]), |t| {
                for &x in ch {
                    if x >= 0.0 {
                        provided(t, x)?;
                    }
                }
                Ok(())
            });
        }
        // Every finite f32, in the build without debug assertions (both when thorough)
        if c.thorough || !CHECKED {
            c.section("every f32: rounding and sign");
            for hi in 0..=0xffffu32 {
                c.case(|| format!("bit patterns {hi:#06x}0000 and up"), |t| {
                    for lo in 0..=0xffffu32 {
                        let x = f32::from_bits(hi << 16 | lo);
                        if x.is_finite() {
                            exact(t, x)?;
                        }
                    }
                    Ok(())
                });
            }
        }
        if c.thorough {
            c.section("every f32: square and cube roots, trigonometry");
            for hi in 0..=0xffffu32 {
                c.case(|| format!("bit patterns {hi:#06x}0000 and up"), |t| {
                    for lo in 0..=0xffffu32 {
                        let x = f32::from_bits(hi << 16 | lo);
                        if x.is_finite() {
                            trig(t, x)?;
                            if lo % 16 == 0 || x == x.floor() {
                                roots(t, x)?;
                            }
                        }
                    }
                    Ok(())
                });
            }
        }
    });
}
