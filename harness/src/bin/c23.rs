use numeric_compounds::matrix::{DynMatrix, Matrix, MatrixMut, MatrixRef};
use numeric_mc::engine::{self, *};
use numeric_mc::{want, want_eq};
use std::fmt::Debug;
use std::ops::{Index, IndexMut};

/// Row and column indices worth trying on a shape: all inside, those just outside, and those whose
/// flattened position would wrap around into the data
fn indices(rows: usize, cols: usize) -> Vec<(usize, usize)> {
    let mut v = Vec::new();
    let big = |n: usize| {
        let mut b: Vec<usize> = (0..n + 3).collect();
        b.extend([n * 2 + 1, 100, 1 << 31, 1 << 32, 1 << 62, 1 << 63, usize::MAX / 2, usize::MAX - 1, usize::MAX]);
        for k in 1..=8usize {
            b.push((usize::MAX / k).wrapping_add(1));
            b.push(usize::MAX / k);
        }
        b
    };
    for i in big(rows) {
        for j in big(cols) {
            v.push((i, j));
        }
    }
    // Same flattened position in another row
    for i in 0..rows {
        for j in 0..cols {
            v.push((i, j + cols));
            v.push((i.wrapping_sub(1), j + cols));
            v.push((i + 1, j.wrapping_sub(cols)));
        }
    }
    v.sort_unstable();
    v.dedup();
    v
}

fn read<T: Debug + PartialEq, M: Index<(usize, usize), Output = T>>(t: &mut Tally, kind: &str, m: &M, rows: usize, cols: usize, want: &[T]) -> Res {
    for (i, j) in indices(rows, cols) {
        if i < rows && j < cols {
            want_eq!(t, &m[(i, j)], &want[i * cols + j], "({i}, {j}) of a {kind} of {rows}x{cols}");
        } else {
            t.op();
            must_panic(|| format!("({i}, {j}) of a {kind} of {rows}x{cols}"), || &m[(i, j)] as *const T as usize)?;
        }
    }
    Ok(())
}

fn addresses<T, M: Index<(usize, usize), Output = T>, V: Index<(usize, usize), Output = T>>(t: &mut Tally, kind: &str, m: &M, v: &V, rows: usize, cols: usize) -> Res {
    for i in 0..rows {
        for j in 0..cols {
            want!(t, std::ptr::eq(&m[(i, j)], &v[(i, j)]), "({i}, {j}) of a {kind} of {rows}x{cols} is another element than that of the matrix");
        }
    }
    Ok(())
}

/// Write everywhere, inside and outside
fn outside<T, M: IndexMut<(usize, usize), Output = T>>(t: &mut Tally, kind: &str, m: &mut M, rows: usize, cols: usize) -> Res {
    for (i, j) in indices(rows, cols) {
        if i >= rows || j >= cols {
            t.op();
            must_panic(|| format!("writing ({i}, {j}) of a {kind} of {rows}x{cols}"), || &mut m[(i, j)] as *mut T as usize)?;
        }
    }
    Ok(())
}

fn shape<T: Clone + Debug + PartialEq + 'static, const R: usize, const C: usize>(c: &mut Ctx, ty: &str, mk: impl Fn(usize) -> T) {
    c.case(|| format!("{R}x{C} of {ty}"), |t| {
        t.state();
        let data: Vec<T> = (0..R * C).map(|i| mk(i + 1)).collect();
        let arr: [[T; C]; R] = std::array::from_fn(|i| std::array::from_fn(|j| data[i * C + j].clone()));
        let mut m = Matrix::new(arr.clone());
        read(t, "static matrix", &m, R, C, &data)?;
        {
            let r = MatrixRef::from(&m);
            read(t, "view of a static matrix", &r, R, C, &data)?;
            addresses(t, "view of a static matrix", &m, &r, R, C)?;
            let copy = r;
            read(t, "copied view of a static matrix", &copy, R, C, &data)?;
            read(t, "cloned view of a static matrix", &Clone::clone(&copy), R, C, &data)?;
        }
        outside(t, "static matrix", &mut m, R, C)?;
        {
            let mut v = MatrixMut::from(&mut m);
            read(t, "mutable view of a static matrix", &v, R, C, &data)?;
            outside(t, "mutable view of a static matrix", &mut v, R, C)?;
        }
        let mut d = DynMatrix::from(arr);
        let d2 = DynMatrix::new(data.clone(), R, C);
        want!(t, d == d2, "the two ways to make a {R}x{C} dynamic matrix differ");
        want_eq!(t, (d.rows(), d.cols(), d2.rows(), d2.cols()), (R, C, R, C), "shape of a dynamic matrix");
        read(t, "dynamic matrix", &d, R, C, &data)?;
        {
            let r = MatrixRef::from(&d);
            read(t, "view of a dynamic matrix", &r, R, C, &data)?;
            addresses(t, "view of a dynamic matrix", &d, &r, R, C)?;
        }
        outside(t, "dynamic matrix", &mut d, R, C)?;
        {
            let mut v = MatrixMut::from(&mut d);
            read(t, "mutable view of a dynamic matrix", &v, R, C, &data)?;
            outside(t, "mutable view of a dynamic matrix", &mut v, R, C)?;
        }
        // Every single write, then every write after another
        let mut model = data.clone();
        let mut next = 1000;
        for i in 0..R {
            for j in 0..C {
                for way in 0..2 {
                    next += 1;
                    model[i * C + j] = mk(next);
                    if way == 0 {
                        m[(i, j)] = mk(next);
                        d[(i, j)] = mk(next);
                    } else {
                        MatrixMut::from(&mut m)[(i, j)] = mk(next);
                        MatrixMut::from(&mut d)[(i, j)] = mk(next);
                    }
                    for a in 0..R {
                        for b in 0..C {
                            let want = &model[a * C + b];
                            want_eq!(t, &m[(a, b)], want, "({a}, {b}) of a static {R}x{C} after writing ({i}, {j})");
                            want_eq!(t, &d[(a, b)], want, "({a}, {b}) of a dynamic {R}x{C} after writing ({i}, {j})");
                            want_eq!(t, &MatrixRef::from(&m)[(a, b)], want, "({a}, {b}) of a view of a static {R}x{C} after writing ({i}, {j})");
                            want_eq!(t, &MatrixRef::from(&d)[(a, b)], want, "({a}, {b}) of a view of a dynamic {R}x{C} after writing ({i}, {j})");
                        }
                    }
                }
            }
        }
        {
            let mut v = MatrixMut::from(&mut d);
            for i in 0..R {
                for j in 0..C {
                    next += 1;
                    model[i * C + j] = mk(next);
                    v[(i, j)] = mk(next);
                    for a in 0..R {
                        for b in 0..C {
                            want_eq!(t, &v[(a, b)], &model[a * C + b], "({a}, {b}) of a mutable view of {R}x{C} after writing ({i}, {j})");
                        }
                    }
                }
            }
        }
        // Row swaps keep the elements in their columns
        for a in 0..R {
            for b in 0..R {
                m = { let x: [[T; C]; R] = std::array::from_fn(|i| std::array::from_fn(|j| model[i * C + j].clone())); Matrix::new(x) };
                let mut d = DynMatrix::new(model.clone(), R, C);
                m.swap_rows(a, b);
                d.swap_rows(a, b);
                for i in 0..R {
                    for j in 0..C {
                        let from = if i == a { b } else if i == b { a } else { i };
                        want_eq!(t, &m[(i, j)], &model[from * C + j], "({i}, {j}) of a static {R}x{C} after swapping rows {a} and {b}");
                        want_eq!(t, &d[(i, j)], &model[from * C + j], "({i}, {j}) of a dynamic {R}x{C} after swapping rows {a} and {b}");
                    }
                }
            }
        }
        Ok(())
    });
}

fn main() {
    engine::main(|c| {
        macro_rules! all {
            ($($r:literal $k:literal)*) => {$(
                shape::<u64, $r, $k>(c, "u64", |i| i as u64 * 0x0101_0101);
                shape::<u8, $r, $k>(c, "u8", |i| i as u8);
                shape::<String, $r, $k>(c, "String", |i| format!("element {i}"));
                shape::<[u16; 3], $r, $k>(c, "[u16; 3]", |i| [i as u16, 7, !(i as u16)]);
            )*};
        }
        c.section("indexing every shape");
        all!(
            0 0  0 1  1 0  0 3  3 0
            1 1  1 2  2 1  1 3  3 1  2 2  2 3  3 2  3 3  1 4  4 1  2 4  4 2  3 4  4 3  4 4
            1 5  5 1  2 5  5 2  3 5  5 3  5 5  1 8  8 1  6 7  7 6
        );
        macro_rules! long {
            ($($r:literal $k:literal)*) => {$( shape::<u16, $r, $k>(c, "u16", |i| i as u16); )*};
        }
        long!(9 9  1 16  16 1  16 17  17 16  1 65  65 1  2 129  129 2  1 257  257 1);
        shape::<(), 2, 3>(c, "()", |_| ());
        shape::<(), 3, 2>(c, "()", |_| ());
        c.section("creating dynamic matrices");
        for rows in 0..=6usize {
            for cols in 0..=6usize {
                c.case(|| format!("{rows}x{cols} from every length"), |t| {
                    t.state();
                    for len in 0..=40usize {
                        let data: Vec<u32> = (0..len as u32).collect();
                        if len == rows * cols {
                            let m = DynMatrix::new(data.clone(), rows, cols);
                            want_eq!(t, (m.rows(), m.cols()), (rows, cols), "shape");
                            read(t, "dynamic matrix", &m, rows, cols, &data)?;
                        } else {
                            t.op();
                            must_panic(|| format!("a {rows}x{cols} dynamic matrix of {len} elements"), || DynMatrix::new(data, rows, cols))?;
                        }
                    }
                    Ok(())
                });
            }
        }
        c.section("creating dynamic matrices of overflowing shapes");
        let huge = [2usize, 3, 4, 5, 6, 8, 1 << 16, 1 << 31, 1 << 32, (1 << 32) + 1, 1 << 33, 1 << 62, 1 << 63, (1 << 63) + 1, usize::MAX / 3 + 1, usize::MAX / 5 + 1, usize::MAX - 1, usize::MAX];
        for rows in huge {
            for cols in huge {
                c.case(|| format!("{rows}x{cols}"), |t| {
                    t.state();
                    for len in (0..=20usize).chain([rows.wrapping_mul(cols)]) {
                        if (len as u128) == rows as u128 * cols as u128 || len > 40 {
                            continue;
                        }
                        t.op();
                        must_panic(|| format!("a {rows}x{cols} dynamic matrix of {len} elements"), || DynMatrix::new(vec![7u8; len], rows, cols).rows())?;
                    }
                    Ok(())
                });
            }
        }
    });
}
