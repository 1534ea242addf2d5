//! Exact fields to run the generic code over: the rationals, and the integers modulo a prime

use numeric_traits::class::{Numeric, Real, RealSigned, Signed};
use numeric_traits::identity::{One, Zero};
use numeric_traits::ops::Pow;
use std::cmp::Ordering;
use std::fmt::{self, Debug};
use std::hash::Hash;
use std::ops::*;

pub trait Field: RealSigned + Debug + Hash + Eq + Default + 'static {
    fn name() -> String;
    fn int(v: i64) -> Self;
    fn recip(&self) -> Self {
        Self::one() / self.clone()
    }
}

fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.abs(), b.abs());
    while b != 0 {
        (a, b) = (b, a % b);
    }
    a
}

/// A rational, always reduced
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Q(i128, i128);

impl Q {
    pub fn new(n: i128, d: i128) -> Q {
        assert!(d != 0, "division by zero");
        let g = gcd(n, d) * d.signum();
        Q(n / g, d / g)
    }
}
fn m(a: i128, b: i128) -> i128 {
    a.checked_mul(b).expect("reference field overflow")
}
impl Default for Q {
    fn default() -> Q {
        Q(0, 1)
    }
}
impl Debug for Q {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if self.1 == 1 {
            write!(f, "{}", self.0)
        } else {
            write!(f, "{}/{}", self.0, self.1)
        }
    }
}
impl Add for Q {
    type Output = Q;
    fn add(self, o: Q) -> Q {
        Q::new(m(self.0, o.1) + m(o.0, self.1), m(self.1, o.1))
    }
}
impl Sub for Q {
    type Output = Q;
    fn sub(self, o: Q) -> Q {
        Q::new(m(self.0, o.1) - m(o.0, self.1), m(self.1, o.1))
    }
}
impl Mul for Q {
    type Output = Q;
    fn mul(self, o: Q) -> Q {
        Q::new(m(self.0, o.0), m(self.1, o.1))
    }
}
impl Div for Q {
    type Output = Q;
    fn div(self, o: Q) -> Q {
        Q::new(m(self.0, o.1), m(self.1, o.0))
    }
}
impl Rem for Q {
    type Output = Q;
    fn rem(self, o: Q) -> Q {
        let q = self / o;
        self - o * Q::new(q.0 / q.1, 1)
    }
}
impl Neg for Q {
    type Output = Q;
    fn neg(self) -> Q {
        Q(-self.0, self.1)
    }
}
impl PartialOrd for Q {
    fn partial_cmp(&self, o: &Q) -> Option<Ordering> {
        Some(m(self.0, o.1).cmp(&m(o.0, self.1)))
    }
}
impl Zero for Q {
    fn zero() -> Q {
        Q(0, 1)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0
    }
}
impl One for Q {
    fn one() -> Q {
        Q(1, 1)
    }
    fn is_one(&self) -> bool {
        *self == Q(1, 1)
    }
}
impl Pow for Q {
    type Output = Q;
    fn pow(self, e: Q) -> Q {
        assert!(e.1 == 1 && e.0 >= 0, "whole powers only");
        (0..e.0).fold(Q(1, 1), |a, _| a * self)
    }
}
impl Numeric for Q {}
impl Signed for Q {
    fn abs(self) -> Q {
        Q(self.0.abs(), self.1)
    }
    fn is_positive(&self) -> bool {
        self.0 >= 0
    }
    fn is_negative(&self) -> bool {
        self.0 < 0
    }
}
impl Real for Q {
    fn floor(self) -> Q {
        Q(self.0.div_euclid(self.1), 1)
    }
    fn ceil(self) -> Q {
        -(-self).floor()
    }
    fn round(self) -> Q {
        (self + Q(1, 2)).floor()
    }
    fn trunc(self) -> Q {
        Q(self.0 / self.1, 1)
    }
    fn fract(self) -> Q {
        self - self.trunc()
    }
    fn log(self, _: Q) -> Q {
        unimplemented!()
    }
}
impl RealSigned for Q {}
impl Field for Q {
    fn name() -> String {
        "the rationals".into()
    }
    fn int(v: i64) -> Q {
        Q(v as i128, 1)
    }
}

/// The integers modulo a prime, ordered by their representatives
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Hash, Default)]
pub struct Gf<const P: u32>(u32);

impl<const P: u32> Debug for Gf<P> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl<const P: u32> Add for Gf<P> {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        Gf((self.0 + o.0) % P)
    }
}
impl<const P: u32> Sub for Gf<P> {
    type Output = Self;
    fn sub(self, o: Self) -> Self {
        Gf((self.0 + P - o.0) % P)
    }
}
impl<const P: u32> Mul for Gf<P> {
    type Output = Self;
    fn mul(self, o: Self) -> Self {
        Gf(self.0 * o.0 % P)
    }
}
impl<const P: u32> Div for Gf<P> {
    type Output = Self;
    fn div(self, o: Self) -> Self {
        assert!(o.0 != 0, "division by zero");
        if P < 16 {
            return Gf((0..P).find(|x| x * o.0 % P == self.0).unwrap());
        }
        // Fermat
        let (mut inv, mut b, mut e) = (1, o.0, P - 2);
        while e > 0 {
            if e % 2 == 1 {
                inv = inv * b % P;
            }
            b = b * b % P;
            e /= 2;
        }
        Gf(self.0 * inv % P)
    }
}
impl<const P: u32> Rem for Gf<P> {
    type Output = Self;
    fn rem(self, o: Self) -> Self {
        assert!(o.0 != 0, "division by zero");
        Gf(0)
    }
}
impl<const P: u32> Neg for Gf<P> {
    type Output = Self;
    fn neg(self) -> Self {
        Gf((P - self.0) % P)
    }
}
impl<const P: u32> Zero for Gf<P> {
    fn zero() -> Self {
        Gf(0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0
    }
}
impl<const P: u32> One for Gf<P> {
    fn one() -> Self {
        Gf(1)
    }
    fn is_one(&self) -> bool {
        self.0 == 1
    }
}
impl<const P: u32> Pow for Gf<P> {
    type Output = Self;
    fn pow(self, e: Self) -> Self {
        // Only ever called with one plus one
        let e = if P == 2 { 2 } else { e.0 };
        (0..e).fold(Gf(1), |a, _| a * self)
    }
}
impl<const P: u32> Numeric for Gf<P> {}
impl<const P: u32> Signed for Gf<P> {
    fn abs(self) -> Self {
        self
    }
    fn is_positive(&self) -> bool {
        true
    }
    fn is_negative(&self) -> bool {
        false
    }
}
impl<const P: u32> Real for Gf<P> {
    fn floor(self) -> Self {
        self
    }
    fn ceil(self) -> Self {
        self
    }
    fn round(self) -> Self {
        self
    }
    fn trunc(self) -> Self {
        self
    }
    fn fract(self) -> Self {
        Gf(0)
    }
    fn log(self, _: Self) -> Self {
        unimplemented!()
    }
}
impl<const P: u32> RealSigned for Gf<P> {}
impl<const P: u32> Field for Gf<P> {
    fn name() -> String {
        format!("GF({P})")
    }
    fn int(v: i64) -> Self {
        Gf(v.rem_euclid(P as i64) as u32)
    }
}
