use numeric_compounds::bivec::BiVector;
use numeric_compounds::complex::Complex;
use numeric_compounds::matrix::Matrix;
use numeric_compounds::vector::{Vec2, Vec3, Vec4, Vector};
use numeric_mc::engine::{self, *};
use numeric_mc::field::{Field, Gf, Q};
use numeric_mc::prim::Prim;
use numeric_mc::{want, want_eq};
use numeric_traits::class::RealSigned;
use numeric_traits::identity::{One, Zero};
use numeric_traits::ops::checked::{CheckedAdd, CheckedSub};
use std::fmt::Debug;
use std::ops::*;

/// A free algebra: records the expression that was evaluated, so that one run of an operator form
/// stands for every component value of every component type
#[derive(Clone, Debug, PartialEq, Eq, Default)]
struct Sym(String);

macro_rules! sym {
    ($($tr:ident $m:ident $atr:ident $am:ident $op:literal)*) => {$(
        impl $tr for Sym {
            type Output = Sym;
            fn $m(self, o: Sym) -> Sym { Sym(format!("({}{}{})", self.0, $op, o.0)) }
        }
        impl<'a> $tr<&'a Sym> for Sym {
            type Output = Sym;
            fn $m(self, o: &'a Sym) -> Sym { Sym(format!("({}{}{})", self.0, $op, o.0)) }
        }
        impl $atr for Sym {
            fn $am(&mut self, o: Sym) { self.0 = format!("({}{}{})", self.0, $op, o.0) }
        }
        impl<'a> $atr<&'a Sym> for Sym {
            fn $am(&mut self, o: &'a Sym) { self.0 = format!("({}{}{})", self.0, $op, o.0) }
        }
    )*};
}
sym!(Add add AddAssign add_assign "+" Sub sub SubAssign sub_assign "-" Mul mul MulAssign mul_assign "*"
     Div div DivAssign div_assign "/" Rem rem RemAssign rem_assign "%");

fn sym<const N: usize>(p: &str) -> [Sym; N] {
    std::array::from_fn(|i| Sym(format!("{p}{i}")))
}

fn raw<T, const N: usize>(v: Vector<T, N>) -> [T; N] {
    v.into()
}

fn forms<const N: usize>(c: &mut Ctx) {
    macro_rules! op {
        ($op:tt $aop:tt $name:literal) => {
            c.case(|| format!("{} on {N} components", $name), |t| {
                t.state();
                let vv: [Sym; N] = std::array::from_fn(|i| Sym(format!("(a{i}{}b{i})", $name)));
                let vs: [Sym; N] = std::array::from_fn(|i| Sym(format!("(a{i}{}s)", $name)));
                let a = || Vector::new(sym::<N>("a"));
                let b = || Vector::new(sym::<N>("b"));
                let s = || Sym("s".into());
                let (bb, ss) = (b(), s());
                want_eq!(t, raw(a() $op b()), vv.clone(), "vector {} vector", $name);
                want_eq!(t, raw(a() $op &bb), vv.clone(), "vector {} &vector", $name);
                want_eq!(t, raw(a() $op s()), vs.clone(), "vector {} scalar", $name);
                want_eq!(t, raw(a() $op &ss), vs.clone(), "vector {} &scalar", $name);
                let mut x = a();
                x $aop b();
                want_eq!(t, raw(x), vv.clone(), "vector {}= vector", $name);
                let mut x = a();
                x $aop &bb;
                want_eq!(t, raw(x), vv.clone(), "vector {}= &vector", $name);
                let mut x = a();
                x $aop s();
                want_eq!(t, raw(x), vs.clone(), "vector {}= scalar", $name);
                let mut x = a();
                x $aop &ss;
                want_eq!(t, raw(x), vs.clone(), "vector {}= &scalar", $name);
                want_eq!(t, bb, b(), "the borrowed right side of {}", $name);
                want_eq!(t, ss, s(), "the borrowed scalar right side of {}", $name);
                Ok(())
            });
        };
    }
    op!(+ += "+");
    op!(- -= "-");
    op!(* *= "*");
    op!(/ /= "/");
    op!(% %= "%");

    c.case(|| format!("construction and access with {N} components"), |t| {
        t.state();
        let arr = sym::<N>("a");
        let v = Vector::new(arr.clone());
        want_eq!(t, Vector::from(arr.clone()), v.clone(), "from an array");
        want_eq!(t, <[Sym; N]>::from(v.clone()), arr.clone(), "into an array");
        want_eq!(t, raw(Vector::<Sym, N>::from_scalar(Sym("s".into()))), std::array::from_fn(|_| Sym("s".into())), "from_scalar");
        want_eq!(t, raw(Vector::<Sym, N>::default()), std::array::from_fn(|_| Sym::default()), "default");
        for i in 0..N {
            want_eq!(t, &v[i], &arr[i], "index {i}");
            let mut w = v.clone();
            w[i] = Sym("new".into());
            for j in 0..N {
                want_eq!(t, &w[j].0, if i == j { "new" } else { &arr[j].0 }, "component {j} after writing {i}");
            }
            want!(t, w != v, "vectors that differ in component {i} are equal");
        }
        for i in [N, N + 1, 2 * N + 1, 1 << 32, 1 << 63, usize::MAX] {
            t.op();
            must_panic(|| format!("index {i} of {N}"), || v[i].clone())?;
            let mut w = v.clone();
            t.op();
            must_panic(|| format!("writing index {i} of {N}"), || w[i] = Sym("x".into()))?;
            want_eq!(t, w, v.clone(), "after a write out of range");
        }
        let row: Matrix<Sym, 1, N> = v.clone().into_row();
        let col: Matrix<Sym, N, 1> = v.clone().into_column();
        for i in 0..N {
            want_eq!(t, &row[(0, i)], &arr[i], "into_row, column {i}");
            want_eq!(t, &col[(i, 0)], &arr[i], "into_column, row {i}");
        }
        want_eq!(t, v.clone(), v.clone(), "a vector and its clone");
        want_eq!(t, raw(Vector::<i32, N>::zeroed()), [0; N], "zeroed");
        want_eq!(t, raw(<Vector<i32, N> as Zero>::zero()), [0; N], "zero");
        want!(t, Vector::<i32, N>::zeroed().is_zero(), "zero is not zero");
        // Every pattern of zero and non-zero components
        for m in 0u32..1 << N.min(16) {
            let v: Vector<i32, N> = Vector::new(std::array::from_fn(|i| (m.checked_shr(i as u32).unwrap_or(0) & 1) as i32 * -3));
            want_eq!(t, v.is_zero(), m == 0, "is_zero of {v:?}");
            if N > 16 && m > 0xFF {
                break;
            }
        }
        // Every single component
        for k in 0..N {
            let v: Vector<i32, N> = Vector::new(std::array::from_fn(|i| i32::from(i == k)));
            want!(t, !v.is_zero(), "is_zero of {v:?}");
        }
        Ok(())
    });
}

fn named(c: &mut Ctx) {
    c.case(|| "named components".into(), |t| {
        t.state();
        macro_rules! named {
            ($ty:ident $n:literal $from:ident [$($get:ident $gm:ident $set:ident $i:literal $s:literal)*]) => {{
                let mk = || $ty::$from($(Sym($s.into())),*);
                let arr: [Sym; $n] = [$(Sym($s.into())),*];
                want_eq!(t, raw(mk()), arr.clone(), stringify!($from));
                $(
                    want_eq!(t, mk().$get().clone(), Sym($s.into()), "{}::{}", stringify!($ty), stringify!($get));
                    want_eq!(t, mk()[$i].clone(), Sym($s.into()), "{}[{}]", stringify!($ty), $i);
                    let mut want = arr.clone();
                    want[$i] = Sym("new".into());
                    let mut v = mk();
                    v.$set(Sym("new".into()));
                    want_eq!(t, raw(v), want.clone(), "{}::{}", stringify!($ty), stringify!($set));
                    let mut v = mk();
                    want_eq!(t, &*v.$gm(), &Sym($s.into()), "{}::{}", stringify!($ty), stringify!($gm));
                    *v.$gm() = Sym("new".into());
                    want_eq!(t, raw(v), want, "writing through {}::{}", stringify!($ty), stringify!($gm));
                )*
            }};
        }
        named!(Vec2 2 from_xy [x x_mut set_x 0 "p" y y_mut set_y 1 "q"]);
        named!(Vec3 3 from_xyz [x x_mut set_x 0 "p" y y_mut set_y 1 "q" z z_mut set_z 2 "r"]);
        named!(Vec4 4 from_xyzw [x x_mut set_x 0 "p" y y_mut set_y 1 "q" z z_mut set_z 2 "r" w w_mut set_w 3 "s"]);
        Ok(())
    });
}

/// Every array of N values of an alphabet
fn arrays<T: Clone, const N: usize>(vals: &[T]) -> Vec<[T; N]> {
    let total = vals.len().pow(N as u32);
    (0..total)
        .map(|mut k| {
            std::array::from_fn(|_| {
                let v = vals[k % vals.len()].clone();
                k /= vals.len();
                v
            })
        })
        .collect()
}

fn wedge_of<T: RealSigned, const N: usize>(b: BiVector<T, N>) -> Option<Vec<T>> {
    // Nothing public reads a bivector. Its only content is the component list; where that is no
    // longer a `Vec`, only that wedge returns is checked
    if std::mem::size_of::<BiVector<T, N>>() != std::mem::size_of::<Vec<T>>() || std::mem::align_of::<BiVector<T, N>>() != std::mem::align_of::<Vec<T>>() {
        return None;
    }
    let b = std::mem::ManuallyDrop::new(b);
    // SAFETY: A `BiVector` is a newtype of `Vec`
    Some(unsafe { std::mem::transmute_copy::<BiVector<T, N>, Vec<T>>(&*b) })
}

fn pairs<T: RealSigned + Debug + 'static, const N: usize>(c: &mut Ctx, what: &str, vals: &[T]) {
    pairs_of(c, what, &arrays::<T, N>(vals));
}

/// Long vectors: each unit vector (in large dimensions those at and around the powers of two), ramps
/// and constants, each against each
fn long_pairs<const N: usize>(c: &mut Ctx) {
    type G = Gf<65521>;
    let mut all: Vec<[G; N]> = Vec::new();
    for i in 0..N {
        let near_power = (i.max(1) - 1..=i + 1).any(usize::is_power_of_two);
        if N <= 17 || i + 3 > N || near_power {
            all.push(std::array::from_fn(|k| G::int((k == i) as i64)));
        }
    }
    all.push(std::array::from_fn(|k| G::int(k as i64 + 1)));
    all.push(std::array::from_fn(|k| G::int(-7 * (k as i64) * (k as i64) - 3)));
    all.push(std::array::from_fn(|_| G::int(1)));
    all.push(std::array::from_fn(|_| G::int(0)));
    all.push(std::array::from_fn(|k| G::int(if k % 2 == 0 { 2 } else { -1 })));
    pairs_of(c, &format!("GF(65521)^{N}"), &all);
}

fn pairs_of<T: RealSigned + Debug + 'static, const N: usize>(c: &mut Ctx, what: &str, all: &[[T; N]]) {
    for a in all {
        c.case(|| format!("{what}: {a:?} with every right side"), |t| {
            t.state();
            let va = || Vector::new(a.clone());
            let sum = a.iter().cloned().fold(T::zero(), |x, y| x + y);
            let product = a.iter().cloned().fold(T::one(), |x, y| x * y);
            want_eq!(t, va().sum(), sum, "sum of {a:?}");
            want_eq!(t, va().product(), product, "product of {a:?}");
            for b in all {
                let vb = || Vector::new(b.clone());
                let dot = (0..N).fold(T::zero(), |x, i| x + a[i].clone() * b[i].clone());
                want_eq!(t, Vector::dot_product(va(), vb()), dot, "dot product of {a:?} and {b:?}");
                let dist = (0..N).fold(T::zero(), |x, i| {
                    let d = a[i].clone() - b[i].clone();
                    x + d.clone() * d
                });
                want_eq!(t, Vector::distance_squared(va(), vb()), dist, "squared distance of {a:?} and {b:?}");
                if let Some(w) = wedge_of(Vector::wedge(va(), vb())) {
                    let mut want = Vec::new();
                    for i in 0..N {
                        for j in i + 1..N {
                            want.push(a[i].clone() * b[j].clone() - a[j].clone() * b[i].clone());
                        }
                    }
                    want_eq!(t, w, want, "wedge of {a:?} and {b:?}");
                }
            }
            Ok(())
        });
    }
}

fn cross<T: RealSigned + Debug + 'static>(c: &mut Ctx, what: &str, vals: &[T]) {
    let all = arrays::<T, 3>(vals);
    for a in &all {
        c.case(|| format!("{what}: {a:?} x every right side"), |t| {
            t.state();
            for b in &all {
                let want: [T; 3] = std::array::from_fn(|i| {
                    let (j, k) = ((i + 1) % 3, (i + 2) % 3);
                    a[j].clone() * b[k].clone() - a[k].clone() * b[j].clone()
                });
                want_eq!(t, raw(Vector::new(a.clone()).cross(Vector::new(b.clone()))), want, "{a:?} x {b:?}");
            }
            Ok(())
        });
    }
}

fn checked<T, const N: usize>(c: &mut Ctx, vals: &[T])
where
    T: Prim + CheckedAdd<Output = T> + CheckedSub<Output = T>,
{
    let all = arrays::<T, N>(vals);
    for a in &all {
        c.case(|| format!("checked [{}; {N}] {a:?}", T::NAME), |t| {
            t.state();
            for b in &all {
                let sum: Option<Vec<T>> = (0..N).map(|i| T::of(&a[i].r().add(&b[i].r()))).collect();
                let diff: Option<Vec<T>> = (0..N).map(|i| T::of(&a[i].r().sub(&b[i].r()))).collect();
                let got = Vector::new(*a).checked_add(Vector::new(*b)).map(|v| raw(v).to_vec());
                want_eq!(t, got, sum, "{a:?} checked_add {b:?}");
                let got = Vector::new(*a).checked_sub(Vector::new(*b)).map(|v| raw(v).to_vec());
                want_eq!(t, got, diff, "{a:?} checked_sub {b:?}");
            }
            Ok(())
        });
    }
}

fn parts<T: Clone>(z: &Complex<T>) -> (T, T) {
    (z.real().clone(), z.imag().clone())
}

fn complex<T: RealSigned + Debug + Default + 'static>(c: &mut Ctx, what: &str, vals: &[T], divides: bool) {
    for ar in vals {
        for ai in vals {
            c.case(|| format!("complex {what}: {ar:?} + {ai:?}i"), |t| {
                t.state();
                let a = || Complex::new(ar.clone(), ai.clone());
                let m = |x: &T, y: &T| x.clone() * y.clone();
                let zero = T::zero();
                let one = T::one();
                want_eq!(t, parts(&a()), (ar.clone(), ai.clone()), "parts");
                want_eq!(t, parts(&a().clone()), (ar.clone(), ai.clone()), "parts of a clone");
                want_eq!(t, parts(&Complex::from_real(ar.clone())), (ar.clone(), zero.clone()), "from_real");
                want_eq!(t, parts(&Complex::from_imag(ai.clone())), (zero.clone(), ai.clone()), "from_imag");
                want_eq!(t, a().abs_squared(), m(ar, ar) + m(ai, ai), "abs_squared");
                want_eq!(t, a().is_zero(), *ar == zero && *ai == zero, "is_zero of {ar:?} + {ai:?}i");
                want_eq!(t, a().is_one(), *ar == one && *ai == zero, "is_one of {ar:?} + {ai:?}i");
                want_eq!(t, parts(&Complex::<T>::zero()), (zero.clone(), zero.clone()), "zero");
                want_eq!(t, parts(&Complex::<T>::one()), (one.clone(), zero.clone()), "one");
                want_eq!(t, parts(&Complex::<T>::default()), (T::default(), T::default()), "default");
                want_eq!(t, parts(&(a() * Complex::one())), (ar.clone(), ai.clone()), "times one");
                want_eq!(t, parts(&(a() + Complex::zero())), (ar.clone(), ai.clone()), "plus zero");
                for br in vals {
                    for bi in vals {
                        let b = || Complex::new(br.clone(), bi.clone());
                        let d = format_args!("{ar:?} + {ai:?}i and {br:?} + {bi:?}i").to_string();
                        want_eq!(t, a() == b(), ar == br && ai == bi, "{d}: ==");
                        want_eq!(t, parts(&(a() + b())), (ar.clone() + br.clone(), ai.clone() + bi.clone()), "{d}: +");
                        want_eq!(t, parts(&(a() - b())), (ar.clone() - br.clone(), ai.clone() - bi.clone()), "{d}: -");
                        want_eq!(t, parts(&(a() * b())), (m(ar, br) - m(ai, bi), m(ar, bi) + m(ai, br)), "{d}: *");
                        let n = m(br, br) + m(bi, bi);
                        if divides && !n.is_zero() {
                            let (qr, qi) = parts(&(a() / b()));
                            let back = (m(&qr, br) - m(&qi, bi), m(&qr, bi) + m(&qi, br));
                            want_eq!(t, back, (ar.clone(), ai.clone()), "{d}: quotient {qr:?} + {qi:?}i times divisor");
                        }
                    }
                    let d = format!("{ar:?} + {ai:?}i and scalar {br:?}");
                    want_eq!(t, parts(&(a() + br.clone())), (ar.clone() + br.clone(), ai.clone()), "{d}: +");
                    want_eq!(t, parts(&(a() - br.clone())), (ar.clone() - br.clone(), ai.clone()), "{d}: -");
                    want_eq!(t, parts(&(a() * br.clone())), (m(ar, br), m(ai, br)), "{d}: *");
                    if divides && !br.is_zero() {
                        let (qr, qi) = parts(&(a() / br.clone()));
                        want_eq!(t, (m(&qr, br), m(&qi, br)), (ar.clone(), ai.clone()), "{d}: / then *");
                    }
                }
                Ok(())
            });
        }
    }
}

fn gf<const P: u32>() -> Vec<Gf<P>> {
    (0..P as i64).map(Gf::<P>::int).collect()
}

fn main() {
    engine::main(|c| {
        c.section("operator forms and access, symbolic components");
        forms::<0>(c);
        forms::<1>(c);
        forms::<2>(c);
        forms::<3>(c);
        forms::<4>(c);
        forms::<5>(c);
        forms::<7>(c);
        forms::<8>(c);
        forms::<16>(c);
        forms::<17>(c);
        forms::<32>(c);
        forms::<33>(c);
        forms::<65>(c);
        forms::<128>(c);
        forms::<257>(c);
        named(c);

        let q: Vec<Q> = [(0, 1), (1, 1), (-1, 1), (2, 3), (-5, 2)].iter().map(|&(n, d)| Q::new(n, d)).collect();
        let f: Vec<f64> = vec![0.0, 1.0, -1.0, 2.0, -3.5];

        c.section("sums, products, dot, distance, wedge");
        pairs::<Gf<11>, 0>(c, "GF(11)^0", &gf::<11>());
        pairs::<Gf<11>, 1>(c, "GF(11)^1", &gf::<11>());
        pairs::<Gf<11>, 2>(c, "GF(11)^2", &gf::<11>());
        pairs::<Gf<5>, 3>(c, "GF(5)^3", &gf::<5>());
        pairs::<Gf<3>, 4>(c, "GF(3)^4", &gf::<3>());
        pairs::<Gf<3>, 5>(c, "GF(3)^5", &gf::<3>());
        pairs::<Q, 2>(c, "Q^2", &q);
        pairs::<Q, 3>(c, "Q^3", &q);
        pairs::<Q, 4>(c, "Q^4", &q[..4]);
        pairs::<Q, 6>(c, "Q^6", &q[1..4]);
        pairs::<f64, 2>(c, "f64^2", &f);
        pairs::<f64, 3>(c, "f64^3", &f);
        pairs::<f64, 4>(c, "f64^4", &f[..4]);
        if c.thorough {
            pairs::<Gf<7>, 4>(c, "GF(7)^4", &gf::<7>());
            pairs::<Gf<5>, 4>(c, "GF(5)^4", &gf::<5>());
            pairs::<Gf<3>, 7>(c, "GF(3)^7", &gf::<3>());
            pairs::<Q, 4>(c, "Q^4 full", &q);
            pairs::<Q, 5>(c, "Q^5", &q[..4]);
        }

        c.section("long vectors: sums, products, dot, distance, wedge");
        long_pairs::<7>(c);
        long_pairs::<8>(c);
        long_pairs::<9>(c);
        long_pairs::<10>(c);
        long_pairs::<11>(c);
        long_pairs::<13>(c);
        long_pairs::<16>(c);
        long_pairs::<17>(c);
        long_pairs::<31>(c);
        long_pairs::<32>(c);
        long_pairs::<33>(c);
        long_pairs::<64>(c);
        long_pairs::<65>(c);
        if c.thorough {
            long_pairs::<127>(c);
            long_pairs::<129>(c);
            long_pairs::<257>(c);
        }

        c.section("cross product");
        cross(c, "GF(7)", &gf::<7>());
        cross(c, "Q", &q);
        cross(c, "f64", &f);
        if c.thorough {
            cross(c, "GF(13)", &gf::<13>());
        }

        c.section("checked addition and subtraction");
        checked::<i8, 1>(c, &i8::all());
        checked::<u8, 1>(c, &u8::all());
        let lv = if c.thorough { 1 } else { 0 };
        checked::<i8, 2>(c, &i8::edges(lv));
        checked::<u8, 2>(c, &u8::edges(lv));
        let pick = [i8::MIN, -1, 0, 1, i8::MAX];
        checked::<i8, 3>(c, &pick);
        checked::<u8, 3>(c, &[0, 1, 127, 128, 255]);
        checked::<i64, 3>(c, &[i64::MIN, -1, 0, 1, i64::MAX]);
        checked::<u128, 3>(c, &[0, 1, u128::MAX - 1, u128::MAX]);
        checked::<i16, 4>(c, &[i16::MIN, 0, 1, i16::MAX]);
        checked::<usize, 5>(c, &[0, 1, usize::MAX]);
        checked::<u32, 0>(c, &[0]);

        c.section("complex numbers");
        complex(c, "GF(3)", &gf::<3>(), true);
        complex(c, "GF(7)", &gf::<7>(), true);
        complex(c, "GF(11)", &gf::<11>(), true);
        complex(c, "Q", &q, true);
        complex(c, "f64", &f, false);
        if c.thorough {
            complex(c, "GF(19)", &gf::<19>(), true);
            complex(c, "GF(31)", &gf::<31>(), true);
        }
        let whole: Vec<f64> = vec![0.0, 1.0, -1.0, 2.0, -2.0, 4.0];
        complex(c, "whole f64", &whole, false);
    });
}
