use numeric_compounds::matrix::{DynMatrix, Matrix};
use numeric_compounds::vector::Vector;
use numeric_mc::alpha::seqs;
use numeric_mc::engine::{self, *};
use numeric_mc::field::*;
use numeric_mc::{want, want_eq};
use numeric_traits::identity::{One, Zero};

type Rows<T> = Vec<Vec<T>>;

fn rows<T: Field, const R: usize, const C: usize>(m: &Matrix<T, R, C>) -> Rows<T> {
    (0..R).map(|i| (0..C).map(|j| m[(i, j)].clone()).collect()).collect()
}

fn dyn_rows<T: Field>(m: &DynMatrix<T>) -> Rows<T> {
    (0..m.rows()).map(|i| (0..m.cols()).map(|j| m[(i, j)].clone()).collect()).collect()
}

fn arr<T: Field, const R: usize, const C: usize>(v: &[T]) -> [[T; C]; R] {
    std::array::from_fn(|i| std::array::from_fn(|j| v[i * C + j].clone()))
}

/// The unique reduced row-echelon form, without zero rows
fn rref<T: Field>(m: &Rows<T>) -> Rows<T> {
    let mut m = m.clone();
    let cols = m.first().map_or(0, |r| r.len());
    let mut at = 0;
    for c in 0..cols {
        let Some(p) = (at..m.len()).find(|r| !m[*r][c].is_zero()) else { continue };
        m.swap(at, p);
        let inv = m[at][c].recip();
        for j in 0..cols {
            m[at][j] = m[at][j].clone() * inv.clone();
        }
        for r in 0..m.len() {
            if r != at && !m[r][c].is_zero() {
                let f = m[r][c].clone();
                for j in 0..cols {
                    m[r][j] = m[r][j].clone() - m[at][j].clone() * f.clone();
                }
            }
        }
        at += 1;
    }
    m.truncate(at);
    m
}

/// Each row starts strictly to the right of the one above, with zero rows last
fn echelon<T: Field>(m: &Rows<T>) -> bool {
    let mut last: i64 = -1;
    for r in m {
        let lead = r.iter().position(|v| !v.is_zero()).map_or(i64::MAX, |p| p as i64);
        if lead != i64::MAX && lead <= last {
            return false;
        }
        if last == i64::MAX && lead != i64::MAX {
            return false;
        }
        last = lead;
    }
    true
}

/// By expansion along the first row, for large ones by elimination
fn det<T: Field>(m: &Rows<T>) -> T {
    if m.is_empty() {
        return T::one();
    }
    if m.len() > 6 {
        let mut m = m.clone();
        let n = m.len();
        let mut d = T::one();
        for c in 0..n {
            let Some(p) = (c..n).find(|r| !m[*r][c].is_zero()) else { return T::zero() };
            if p != c {
                m.swap(c, p);
                d = T::zero() - d;
            }
            let inv = m[c][c].recip();
            for r in c + 1..n {
                let f = m[r][c].clone() * inv.clone();
                for j in c..n {
                    m[r][j] = m[r][j].clone() - m[c][j].clone() * f.clone();
                }
            }
            d = d * m[c][c].clone();
        }
        return d;
    }
    let mut sum = T::zero();
    for c in 0..m.len() {
        if m[0][c].is_zero() {
            continue;
        }
        let minor: Rows<T> = m[1..].iter().map(|r| r.iter().enumerate().filter(|(j, _)| *j != c).map(|x| x.1.clone()).collect()).collect();
        let d = m[0][c].clone() * det(&minor);
        sum = if c % 2 == 0 { sum + d } else { sum - d };
    }
    sum
}

fn reduce_ok<T: Field>(t: &mut Tally, what: &str, from: &Rows<T>, to: &Rows<T>) -> Res {
    want!(t, echelon(to), "{what} of {from:?} over {}: {to:?} is not in row-echelon form", T::name());
    want!(t, rref(from) == rref(to), "{what} of {from:?} over {}: {to:?} has another row space", T::name());
    Ok(())
}

/// Everything on one matrix
fn unary<T: Field, const R: usize, const C: usize>(t: &mut Tally, v: &[T], swaps: bool) -> Res {
    let a = arr::<T, R, C>(v);
    let want: Rows<T> = a.iter().map(|r| r.to_vec()).collect();
    t.state();
    let m = || Matrix::<T, R, C>::new(a.clone());
    want_eq!(t, rows(&m()), want.clone(), "entries of a new matrix");
    reduce_ok(t, "row reduction", &want, &rows(&m().row_reduce()))?;
    let d = || DynMatrix::from(a.clone());
    reduce_ok(t, "dynamic row reduction", &want, &dyn_rows(&d().row_reduce()))?;
    if !swaps {
        return Ok(());
    }
    want_eq!(t, (d().rows(), d().cols()), (R, C), "shape of a dynamic matrix");
    want_eq!(t, dyn_rows(&d()), want.clone(), "entries of a new dynamic matrix");
    let tr: Rows<T> = (0..C).map(|j| (0..R).map(|i| want[i][j].clone()).collect()).collect();
    want_eq!(t, rows(&m().transpose()), tr, "transpose of {want:?}");
    want!(t, m().transpose().transpose() == m(), "{want:?} transposed twice");
    let cols: [Vector<T, R>; C] = std::array::from_fn(|j| Vector::new(std::array::from_fn(|i| a[i][j].clone())));
    want_eq!(t, rows(&Matrix::<T, R, C>::from_columns(cols)), want.clone(), "from_columns");
    let rws: [Vector<T, C>; R] = std::array::from_fn(|i| Vector::new(a[i].clone()));
    want_eq!(t, rows(&Matrix::<T, R, C>::from_rows(rws)), want.clone(), "from_rows");
    for i in 0..R {
        for j in 0..R {
            let mut s = want.clone();
            s.swap(i, j);
            let mut x = m();
            x.swap_rows(i, j);
            want_eq!(t, rows(&x), s.clone(), "{want:?} with rows {i} and {j} swapped");
            let mut x = d();
            x.swap_rows(i, j);
            want_eq!(t, dyn_rows(&x), s, "dynamic {want:?} with rows {i} and {j} swapped");
        }
    }
    let zero = v.iter().all(|x| x.is_zero());
    want_eq!(t, m().is_zero(), zero, "is_zero of {want:?}");
    let one = (0..R).all(|i| (0..C).all(|j| if i == j { a[i][j].is_one() } else { a[i][j].is_zero() }));
    want_eq!(t, m().is_one(), one, "is_one of {want:?}");
    Ok(())
}

fn square<T: Field, const N: usize>(t: &mut Tally, v: &[T]) -> Res {
    let a = arr::<T, N, N>(v);
    let want: Rows<T> = a.iter().map(|r| r.to_vec()).collect();
    let m = Matrix::<T, N, N>::new(a.clone());
    want_eq!(t, m.determinant(), det(&want), "determinant of {want:?} over {}", T::name());
    want_eq!(t, rows(&m), want.clone(), "{want:?} after its determinant was taken");
    let dg: [T; N] = m.diag().into();
    want_eq!(t, dg.to_vec(), (0..N).map(|i| want[i][i].clone()).collect::<Vec<_>>(), "diagonal of {want:?}");
    Ok(())
}

/// Sums of two matrices of one shape
fn sums<T: Field, const R: usize, const C: usize>(t: &mut Tally, x: &[T], y: &[T]) -> Res {
    let (a, b) = (arr::<T, R, C>(x), arr::<T, R, C>(y));
    t.state();
    let s: Rows<T> = (0..R).map(|i| (0..C).map(|j| a[i][j].clone() + b[i][j].clone()).collect()).collect();
    want_eq!(t, rows(&(Matrix::new(a.clone()) + Matrix::new(b.clone()))), s, "{a:?} + {b:?} over {}", T::name());
    let s: Rows<T> = (0..R).map(|i| (0..C).map(|j| a[i][j].clone() - b[i][j].clone()).collect()).collect();
    want_eq!(t, rows(&(Matrix::new(a.clone()) - Matrix::new(b.clone()))), s, "{a:?} - {b:?} over {}", T::name());
    want_eq!(t, Matrix::new(a.clone()) == Matrix::new(b.clone()), a == b, "{a:?} == {b:?}");
    Ok(())
}

fn product<T: Field, const R: usize, const K: usize, const C: usize>(t: &mut Tally, x: &[T], y: &[T]) -> Res {
    let (a, b) = (arr::<T, R, K>(x), arr::<T, K, C>(y));
    t.state();
    let p: Rows<T> = (0..R)
        .map(|i| (0..C).map(|j| (0..K).fold(T::zero(), |s, k| s + a[i][k].clone() * b[k][j].clone())).collect())
        .collect();
    want_eq!(t, rows(&(Matrix::new(a.clone()) * Matrix::new(b.clone()))), p, "{a:?} * {b:?} over {}", T::name());
    Ok(())
}

/// Units, ramps and dense patterns: enough to separate all entries of a bilinear map
fn basis<T: Field>(n: usize) -> Vec<Vec<T>> {
    let mut v = vec![vec![T::zero(); n], vec![T::one(); n], (0..n).map(|i| T::int(i as i64 + 1)).collect(), (0..n).map(|i| T::int(3 - 2 * i as i64)).collect()];
    for i in 0..n {
        let mut u = vec![T::zero(); n];
        u[i] = T::one();
        v.push(u);
    }
    v
}

/// Every matrix with entries from an alphabet, for every shape with few enough of them
macro_rules! every {
    ($c:ident $f:ty, $al:expr, $limit:expr; $($r:tt $k:tt)*) => {$({
        let al: Vec<$f> = $al;
        let n = $r * $k;
        if (al.len() as f64).powi(n as i32) <= $limit as f64 {
            $c.section(&format!("every {}x{} matrix over {} with {} entries", $r, $k, <$f>::name(), al.len()));
            let head = n.min(if al.len() > 3 { 2 } else { 4 });
            for h in seqs(&al, head) {
                $c.case(|| format!("all matrices starting {h:?}"), |t| {
                    for tail in seqs(&al, n - head) {
                        let mut v = h.clone();
                        v.extend(tail);
                        unary::<$f, $r, $k>(t, &v, n <= 9)?;
                        every!(@sq t v $f, $r $k);
                    }
                    Ok(())
                });
            }
        }
    })*};
    (@sq $t:ident $v:ident $f:ty, 1 1) => { square::<$f, 1>($t, &$v)? };
    (@sq $t:ident $v:ident $f:ty, 2 2) => { square::<$f, 2>($t, &$v)? };
    (@sq $t:ident $v:ident $f:ty, 3 3) => { square::<$f, 3>($t, &$v)? };
    (@sq $t:ident $v:ident $f:ty, 4 4) => { square::<$f, 4>($t, &$v)? };
    (@sq $t:ident $v:ident $f:ty, $r:tt $k:tt) => {};
}

macro_rules! shapes {
    ($c:ident $f:ty, $al:expr, $limit:expr) => {
        every!($c $f, $al, $limit; 1 1  1 2  2 1  1 3  3 1  1 4  4 1  2 2  2 3  3 2  2 4  4 2  3 3  2 5  5 2  3 4  4 3  4 4)
    };
}

fn constants<T: Field, const R: usize, const C: usize>(c: &mut Ctx) {
    c.case(|| format!("{R}x{C} over {}", T::name()), |t| {
        let z: Rows<T> = vec![vec![T::zero(); C]; R];
        let mut o = z.clone();
        for i in 0..R.min(C) {
            o[i][i] = T::one();
        }
        want_eq!(t, rows(&Matrix::<T, R, C>::zero()), z.clone(), "zero {R}x{C}");
        want_eq!(t, rows(&Matrix::<T, R, C>::default()), z, "default {R}x{C}");
        want_eq!(t, rows(&Matrix::<T, R, C>::one()), o, "one {R}x{C}");
        want!(t, Matrix::<T, R, C>::zero().is_zero() && Matrix::<T, R, C>::one().is_one(), "predicates of the constants {R}x{C}");
        Ok(())
    });
}

/// A permutation from its index
fn permutation(n: usize, mut k: usize) -> (Vec<usize>, i64) {
    let mut left: Vec<usize> = (0..n).collect();
    let mut out = Vec::new();
    let mut sign = 1;
    for i in (1..=n).rev() {
        let at = k % i;
        k /= i;
        if at % 2 == 1 {
            sign = -sign;
        }
        out.push(left.remove(at));
    }
    (out, sign)
}

/// Larger square matrices: every row order of several triangular and dense matrices
fn large<T: Field, const N: usize>(c: &mut Ctx, perms: usize) {
    c.section(&format!("row orders of structured {N}x{N} matrices over {}", T::name()));
    let base: Vec<(&str, Box<dyn Fn(usize, usize) -> i64>)> = vec![
        ("identity", Box::new(|i, j| (i == j) as i64)),
        ("diagonal", Box::new(|i, j| if i == j { [2, -3, 1, 5, -1, 4][i % 6] } else { 0 })),
        ("upper triangular", Box::new(|i, j| if j >= i { (j + 2 * i + 1) as i64 } else { 0 })),
        ("lower triangular", Box::new(|i, j| if j <= i { 1 + ((i * 3 + j) % 4) as i64 } else { 0 })),
        ("Hilbert-like", Box::new(|i, j| [7, 2, -1, 3, 5, -4, 1, 6, 2][(i * i + 3 * j) % 9])),
        ("singular by a repeated row", Box::new(|i, j| { let i = if i == N - 1 { 0 } else { i }; (i * 2 + j * j) as i64 % 5 - 2 })),
        ("singular by a zero column", Box::new(|i, j| if j == 1 { 0 } else { (i * j + i + 2 * j) as i64 % 4 - 1 })),
        ("anti-diagonal", Box::new(|i, j| if i + j == N - 1 { i as i64 - 5 } else { 0 })),
        ("companion", Box::new(|i, j| if j == N - 1 { i as i64 + 1 } else { (i == j + 1) as i64 })),
    ];
    for (name, f) in &base {
        for p in 0..perms {
            c.case(|| format!("{name}, row order {p}"), |t| {
                let (perm, _) = permutation(N, p);
                let v: Vec<T> = (0..N * N).map(|k| T::int(f(perm[k / N], k % N))).collect();
                unary::<T, N, N>(t, &v, p == 0)?;
                square::<T, N>(t, &v)
            });
        }
    }
}

fn main() {
    engine::main(|c| {
        let k = c.thorough;
        // Exhaustive over small fields
        shapes!(c Gf<2>, vec![Gf::int(0), Gf::int(1)], 70000);
        shapes!(c Gf<3>, vec![Gf::int(0), Gf::int(1), Gf::int(2)], if k { 600000 } else { 20000 });
        shapes!(c Gf<5>, (0..5).map(Gf::int).collect(), if k { 2000000 } else { 20000 });
        // The rationals with small entries
        shapes!(c Q, vec![Q::int(0), Q::int(1), Q::int(-1)], if k { 600000 } else { 20000 });
        shapes!(c Q, vec![Q::int(0), Q::int(1), Q::int(-2), Q::int(3), Q::new(1, 2), Q::new(-5, 3)], if k { 11000000 } else { 50000 });
        if k {
            shapes!(c Q, vec![Q::int(0), Q::int(1), Q::int(-1), Q::int(2)], 300000);
        }
        c.section("zero, one and default of every shape");
        macro_rules! consts {
            ($($r:literal $k:literal)*) => {$(
                constants::<Q, $r, $k>(c);
                constants::<Gf<2>, $r, $k>(c);
            )*};
        }
        consts!(1 1  1 2  2 1  2 2  1 3  3 1  2 3  3 2  3 3  4 4  4 2  2 5  5 5  6 6  7 3);
        c.section("every pair of 2x2 matrices over GF(3)");
        let al: Vec<Gf<3>> = (0..3).map(Gf::int).collect();
        let all = seqs(&al, 4);
        for x in &all {
            c.case(|| format!("{x:?} with every second operand"), |t| {
                for y in &all {
                    sums::<Gf<3>, 2, 2>(t, x, y)?;
                    product::<Gf<3>, 2, 2, 2>(t, x, y)?;
                }
                Ok(())
            });
        }
        c.section("sums and products of every shape up to 4");
        macro_rules! bilinear {
            ($($r:literal $k:literal $m:literal)*) => {$(
                for x in basis::<Q>($r * $k) {
                    c.case(|| format!("{}x{} {x:?} times {}x{}", $r, $k, $k, $m), |t| {
                        for y in basis::<Q>($k * $m) {
                            product::<Q, $r, $k, $m>(t, &x, &y)?;
                        }
                        for y in basis::<Q>($r * $k) {
                            sums::<Q, $r, $k>(t, &x, &y)?;
                        }
                        Ok(())
                    });
                }
            )*};
        }
        bilinear!(
            1 1 1  1 1 2  1 2 1  1 2 2  2 1 1  2 1 2  2 2 1  2 2 2
            1 3 1  3 1 3  1 3 3  3 3 1  3 1 1  1 1 3  2 3 2  3 2 3  2 3 4  4 3 2  3 3 3  2 2 3  3 2 2
            4 4 4  1 4 1  4 1 4  3 4 3  4 3 4  2 5 3  5 2 5  5 5 5  1 6 2  6 6 6
        );
        c.section("sums and products of larger shapes");
        macro_rules! sparse {
            ($($r:literal $k:literal $m:literal)*) => {$(
                // Ramps and the units along a few diagonals
                let pick = |n: usize| -> Vec<Vec<Gf<10007>>> {
                    let b = basis::<Gf<10007>>(n);
                    let step = (n / 12).max(1);
                    b[..4].iter().cloned().chain(b[4..].iter().step_by(step).cloned()).chain([b[b.len() - 1].clone()]).collect()
                };
                for x in pick($r * $k) {
                    c.case(|| format!("{}x{} {x:?} times {}x{}", $r, $k, $k, $m), |t| {
                        for y in pick($k * $m) {
                            product::<Gf<10007>, $r, $k, $m>(t, &x, &y)?;
                        }
                        for y in pick($r * $k) {
                            sums::<Gf<10007>, $r, $k>(t, &x, &y)?;
                        }
                        Ok(())
                    });
                }
            )*};
        }
        sparse!(7 7 7  8 8 8  9 9 9  1 7 1  7 1 7  1 8 1  8 1 8  1 9 1  9 1 9  2 8 3  3 9 2  16 16 16  1 16 1  16 1 16  17 17 17  1 17 1  17 1 17  5 16 9  1 33 1  33 1 33  1 65 1  2 257 1  129 1 2);
        consts!(8 8  9 9  16 16  17 17  1 16  16 1  8 9  9 8  33 2  2 33);
        c.section("larger rectangles");
        macro_rules! rect {
            ($($r:literal $k:literal)*) => {$(
                for kind in 0..6usize {
                    c.case(|| format!("{}x{} pattern {kind}", $r, $k), |t| {
                        let v: Vec<Gf<10007>> = (0..$r * $k)
                            .map(|n| {
                                let (i, j) = (n / $k, n % $k);
                                Gf::int(match kind {
                                    0 => (i * i + 3 * j + 1) as i64,
                                    1 => ((7 * i + 5 * j * j + i * j) % 11) as i64 - 5,
                                    2 => if j < i { 0 } else { (i + j) as i64 + 1 },
                                    3 => if j < $k / 2 { 0 } else { ((i + 2) * (j + 1)) as i64 % 13 },
                                    4 => (i % 2 * j) as i64,
                                    _ => if (i + j) % 3 == 0 { 1 } else { 0 },
                                })
                            })
                            .collect();
                        unary::<Gf<10007>, $r, $k>(t, &v, true)
                    });
                }
            )*};
        }
        rect!(1 5  5 1  1 8  8 1  1 9  9 1  1 16  16 1  1 17  17 1  3 5  5 3  3 7  7 3  4 6  6 4  5 8  8 5  8 9  9 8  9 16  16 9  2 17  17 2  3 33  33 3);
        large::<Gf<10007>, 7>(c, 12);
        large::<Gf<10007>, 8>(c, 12);
        large::<Gf<10007>, 9>(c, 8);
        large::<Gf<10007>, 12>(c, 4);
        large::<Gf<10007>, 16>(c, 4);
        large::<Gf<10007>, 17>(c, 4);
        large::<Q, 3>(c, 6);
        large::<Q, 4>(c, 24);
        large::<Q, 5>(c, 120);
        large::<Q, 6>(c, if k { 720 } else { 60 });
        large::<Gf<2>, 5>(c, 120);
        large::<Gf<7>, 5>(c, 120);
        large::<Gf<7>, 6>(c, if k { 720 } else { 60 });
    });
}
