//! L03: containers and utility helpers against plain-array models

use mc::*;
use russell_lab::*;
use std::collections::HashMap;
use std::fmt::Debug;
use std::fs;

/// Sizes at and around round numbers
const LARGE: [usize; 10] = [7, 8, 9, 16, 17, 21, 33, 64, 65, 130];
const LARGE_SHAPES: [(usize, usize); 9] = [(7, 7), (2, 21), (21, 2), (8, 9), (9, 8), (17, 16), (1, 33), (33, 1), (24, 24)];

/// Compares everything observable of a vector with the model
fn same_vector<T>(v: &NumVector<T>, m: &[T]) -> Outcome
where
    T: std::ops::MulAssign + num_traits_like::Bound + Debug + PartialEq,
{
    ensure!(v.dim() == m.len(), "dim {} instead of {}", v.dim(), m.len());
    ensure!(v.as_data().as_slice() == m, "data {:?} instead of {:?}", v.as_data(), m);
    for i in 0..m.len() {
        ensure!(v.get(i) == m[i] && v[i] == m[i], "element {} is {:?} instead of {:?}", i, v.get(i), m[i]);
    }
    let it: Vec<T> = v.into_iter().copied().collect();
    ensure!(it == m, "iterator yields {:?} instead of {:?}", it, m);
    ensure!(AsArray1D::size(v) == m.len() && AsArray1D::as_slice(v) == m, "array view differs");
    let c = v.clone();
    ensure!(c.as_data() == v.as_data(), "clone differs");
    let it: Vec<T> = c.into_iter().collect();
    ensure!(it == m, "consuming iterator differs");
    Ok(())
}

/// The bound required by the containers (the trait names come from num-traits, which is re-declared here)
pub mod num_traits_like {
    pub trait Bound: num_traits::Num + num_traits::NumCast + Copy + serde::de::DeserializeOwned + serde::Serialize + std::ops::AddAssign + std::ops::MulAssign {}
    impl<T> Bound for T where T: num_traits::Num + num_traits::NumCast + Copy + serde::de::DeserializeOwned + serde::Serialize + std::ops::AddAssign + std::ops::MulAssign {}
}

fn display_tokens(text: &str) -> Result<Vec<Vec<String>>, String> {
    let lines: Vec<&str> = text.split('\n').collect();
    let w = lines[0].chars().count();
    for l in &lines {
        ensure!(l.chars().count() == w, "display lines are not aligned:\n{}", text);
    }
    ensure!(lines[0].starts_with('┌') && lines[lines.len() - 1].starts_with('└'), "display has no frame");
    let mut out = Vec::new();
    for l in &lines[1..lines.len() - 1] {
        ensure!(l.starts_with('│') && l.ends_with('│'), "display row has no frame");
        out.push(l.trim_matches('│').split_whitespace().map(|s| s.to_string()).collect());
    }
    Ok(out)
}

fn vector_histories<T>(run: &mut Run, name: &str, val: fn(i64) -> T)
where
    T: num_traits_like::Bound + Debug + PartialEq + std::fmt::Display + Send + Sync,
{
    const NOPS: usize = 12;
    let depth = run.pick(4, 5);
    let total = pow(NOPS, depth);
    let label = format!("vector-{}", name);
    run.section(&format!("{label}-larger"), LARGE.len() * NOPS, |ctx, w| {
        let dim = LARGE[w / NOPS];
        for second in 0..NOPS {
            let ops = [w % NOPS, second];
            ctx.case(format!("dim={} ops={:?}", dim, ops), |t| vector_history(t, dim, &ops, val));
        }
    });
    run.section(&label, 5 * NOPS, |ctx, w| {
        let dim = w / NOPS;
        for i in 0..total / NOPS {
            let mut ops = vec![w % NOPS];
            ops.extend(digits(i, NOPS, depth - 1));
            ctx.case(format!("dim={} ops={:?}", dim, ops), |t| vector_history(t, dim, &ops, val));
        }
    });
}

fn vector_history<T>(t: &mut Trace, dim: usize, ops: &[usize], val: fn(i64) -> T) -> Outcome
where
    T: num_traits_like::Bound + Debug + PartialEq + std::fmt::Display,
{
    let mut v = NumVector::<T>::initialized(dim, |i| val(i as i64 + 1));
    let mut m: Vec<T> = (0..dim).map(|i| val(i as i64 + 1)).collect();
    same_vector(&v, &m)?;
    for (k, &op) in ops.iter().enumerate() {
        t.op();
        let x = val(k as i64 * 3 - 4);
        match op {
            0 => {
                v.fill(x);
                m.iter_mut().for_each(|e| *e = x);
            }
            1 => {
                if dim > 0 {
                    v.set((k + 1) % dim, x);
                    m[(k + 1) % dim] = x;
                }
            }
            2 => {
                if dim > 0 {
                    v[(k + 2) % dim] = x;
                    m[(k + 2) % dim] = x;
                }
            }
            3 => {
                v.scale(val(2));
                m.iter_mut().for_each(|e| *e = *e * val(2));
            }
            4 => {
                v.map(|e| e * val(3) + val(1));
                m.iter_mut().for_each(|e| *e = *e * val(3) + val(1));
            }
            5 => {
                v.map_with_index(|i, e| e - val(i as i64));
                m.iter_mut().enumerate().for_each(|(i, e)| *e = *e - val(i as i64));
            }
            6 => {
                let r: Vec<T> = m.iter().rev().copied().collect();
                v.set_vector(&r);
                m = r;
            }
            7 => {
                // rotate by splitting and joining at every position
                for cut in 0..=dim {
                    let (mut a, mut b) = (vec![x; cut], vec![x; dim - cut]);
                    v.split2(&mut a, &mut b);
                    ensure!(a[..] == m[..cut] && b[..] == m[cut..], "split2 at {} wrong", cut);
                    v.join2(&b, &a);
                    m.rotate_left(cut);
                    ensure!(v.as_data() == &m, "join2 at {} wrong", cut);
                }
            }
            8 => {
                for e in v.as_mut_data().iter_mut() {
                    *e = *e + x;
                }
                m.iter_mut().for_each(|e| *e = *e + x);
            }
            9 => {
                let n = v.get_mapped(|e| e + e);
                same_vector(&v, &m)?;
                v = n;
                m.iter_mut().for_each(|e| *e = *e + *e);
            }
            10 => {
                let d = v.get_differences();
                let c = d.get_cumulative_sum(if dim > 0 { Some(m[0]) } else { None });
                let dm: Vec<T> = (1..dim).map(|i| m[i] - m[i - 1]).collect();
                same_vector(&d, &dm)?;
                same_vector(&c, &m)?;
                let n = v.get_cumulative_sum(None);
                let mut s = T::zero();
                for e in m.iter_mut() {
                    s = s + *e;
                    *e = s;
                }
                v = n;
            }
            _ => {
                for e in &mut v {
                    *e = *e - val(1);
                }
                m.iter_mut().for_each(|e| *e = *e - val(1));
            }
        }
        same_vector(&v, &m)?;
        t.state(&format!("{:?}", m));
    }
    let text = format!("{}", v);
    if dim == 0 {
        ensure!(text == "[]", "empty vector is displayed as {}", text);
    } else {
        let tok = display_tokens(&text)?;
        let want: Vec<Vec<String>> = m.iter().map(|e| vec![format!("{}", e)]).collect();
        ensure!(tok == want, "display {:?} instead of {:?}", tok, want);
        let tok = display_tokens(&format!("{:.2}", v))?;
        let want: Vec<Vec<String>> = m.iter().map(|e| vec![format!("{:.2}", e)]).collect();
        ensure!(tok == want, "display with precision {:?} instead of {:?}", tok, want);
    }
    Ok(())
}

fn same_matrix<T>(a: &NumMatrix<T>, m: &[Vec<T>], nrow: usize, ncol: usize) -> Outcome
where
    T: num_traits_like::Bound + Debug + PartialEq,
{
    ensure!(a.dims() == (nrow, ncol) && a.nrow() == nrow && a.ncol() == ncol, "dims {:?} instead of {:?}", a.dims(), (nrow, ncol));
    ensure!(a.as_data().len() == nrow * ncol, "number of elements is {}", a.as_data().len());
    for i in 0..nrow {
        for j in 0..ncol {
            ensure!(
                a.get(i, j) == m[i][j] && a[(i, j)] == m[i][j] && AsArray2D::at(a, i, j) == m[i][j] && a.as_data()[i + j * nrow] == m[i][j],
                "element ({},{}) is {:?} instead of {:?}",
                i,
                j,
                a.get(i, j),
                m[i][j]
            );
        }
        ensure!(a.extract_row(i) == m[i], "row {} is {:?}", i, a.extract_row(i));
    }
    for j in 0..ncol {
        let col: Vec<T> = (0..nrow).map(|i| m[i][j]).collect();
        ensure!(a.extract_column(j) == col, "column {} is {:?}", j, a.extract_column(j));
    }
    Ok(())
}

fn matrix_histories<T>(run: &mut Run, name: &str, val: fn(i64) -> T)
where
    T: num_traits_like::Bound + Debug + PartialEq + std::fmt::Display + Send + Sync,
{
    const NOPS: usize = 8;
    let depth = run.pick(4, 5);
    let total = pow(NOPS, depth);
    let label = format!("matrix-{}", name);
    run.section(&format!("{label}-larger"), LARGE_SHAPES.len() * NOPS, |ctx, w| {
        let (nrow, ncol) = LARGE_SHAPES[w / NOPS];
        for second in 0..NOPS {
            let ops = [w % NOPS, second];
            ctx.case(format!("{}x{} ops={:?}", nrow, ncol, ops), |t| matrix_history(t, nrow, ncol, &ops, val));
        }
    });
    run.section(&label, 20, |ctx, w| {
        let (nrow, ncol) = (w / 5, w % 5);
        for i in 0..total {
            let ops = digits(i, NOPS, depth);
            ctx.case(format!("{}x{} ops={:?}", nrow, ncol, ops), |t| matrix_history(t, nrow, ncol, &ops, val));
        }
    });
}

fn matrix_history<T>(t: &mut Trace, nrow: usize, ncol: usize, ops: &[usize], val: fn(i64) -> T) -> Outcome
where
    T: num_traits_like::Bound + Debug + PartialEq + std::fmt::Display,
{
    let (mut r, mut c) = (nrow, ncol);
    let mut a = NumMatrix::<T>::initialized(r, c, |i, j| val((i * 5 + j) as i64));
    let mut m: Vec<Vec<T>> = (0..r).map(|i| (0..c).map(|j| val((i * 5 + j) as i64)).collect()).collect();
    same_matrix(&a, &m, r, c)?;
    for (k, &op) in ops.iter().enumerate() {
        t.op();
        let x = val(k as i64 * 3 - 4);
        let some = r > 0 && c > 0;
        let (p, q) = if some { ((k + 1) % r, (k + 2) % c) } else { (0, 0) };
        match op {
            0 => {
                a.fill(x);
                m.iter_mut().flatten().for_each(|e| *e = x);
            }
            1 if some => {
                a.set(p, q, x);
                m[p][q] = x;
            }
            2 if some => {
                a.add(p, q, x);
                m[p][q] = m[p][q] + x;
            }
            3 if some => {
                a.mul(p, q, x);
                m[p][q] = m[p][q] * x;
            }
            4 if some => {
                a[(p, q)] = x;
                m[p][q] = x;
            }
            5 => {
                let b = a.transposed();
                same_matrix(&a, &m, r, c)?;
                a = b;
                m = (0..c).map(|j| (0..r).map(|i| m[i][j]).collect()).collect();
                std::mem::swap(&mut r, &mut c);
            }
            6 => {
                // column-major raw access
                for (idx, e) in a.as_mut_data().iter_mut().enumerate() {
                    *e = *e + val(idx as i64);
                }
                for i in 0..r {
                    for j in 0..c {
                        m[i][j] = m[i][j] + val((i + j * r) as i64);
                    }
                }
            }
            7 if r > 0 && c > 0 => {
                let b = NumMatrix::<T>::from(&m);
                same_matrix(&b, &m, r, c)?;
                let l = NumMatrix::<T>::from_lower(&m);
                let u = NumMatrix::<T>::from_upper(&m);
                if r == c {
                    let z = T::zero();
                    let lm: Vec<Vec<T>> = (0..r).map(|i| (0..c).map(|j| if j <= i { m[i][j] } else { z }).collect()).collect();
                    let um: Vec<Vec<T>> = (0..r).map(|i| (0..c).map(|j| if j >= i { m[i][j] } else { z }).collect()).collect();
                    same_matrix(&l?, &lm, r, c)?;
                    same_matrix(&u?, &um, r, c)?;
                    let d: Vec<T> = (0..r).map(|i| m[i][i]).collect();
                    let dm: Vec<Vec<T>> = (0..r).map(|i| (0..c).map(|j| if j == i { d[i] } else { z }).collect()).collect();
                    same_matrix(&NumMatrix::<T>::diagonal(&d), &dm, r, c)?;
                    let im: Vec<Vec<T>> = (0..r).map(|i| (0..c).map(|j| if j == i { T::one() } else { z }).collect()).collect();
                    same_matrix(&NumMatrix::<T>::identity(r), &im, r, c)?;
                } else {
                    ensure!(l.is_err() && u.is_err(), "triangle of a rectangular array accepted");
                }
                a = b.clone();
            }
            _ => (),
        }
        same_matrix(&a, &m, r, c)?;
        t.state(&format!("{:?}", m));
    }
    let zero = NumMatrix::<T>::new(r, c);
    ensure!(zero.as_data().iter().all(|e| *e == T::zero()) && zero.dims() == (r, c), "new matrix is not zero");
    let filled = NumMatrix::<T>::filled(r, c, val(3));
    ensure!(filled.as_data().iter().all(|e| *e == val(3)) && filled.dims() == (r, c), "filled matrix is wrong");
    let text = format!("{}", a);
    if r == 0 || c == 0 {
        ensure!(text == "[]", "empty matrix is displayed as {}", text);
    } else {
        let want: Vec<Vec<String>> = m.iter().map(|row| row.iter().map(|e| format!("{}", e)).collect()).collect();
        let tok = display_tokens(&text)?;
        ensure!(tok == want, "display {:?} instead of {:?}", tok, want);
        let want: Vec<Vec<String>> = m.iter().map(|row| row.iter().map(|e| format!("{:.3}", e)).collect()).collect();
        let tok = display_tokens(&format!("{:.3}", a))?;
        ensure!(tok == want, "display with precision {:?} instead of {:?}", tok, want);
    }
    Ok(())
}

fn is_perm(p: &[usize], n: usize) -> bool {
    let mut seen = vec![false; n];
    p.len() == n && p.iter().all(|&i| i < n && !std::mem::replace(&mut seen[i], true))
}

/// total order with NaN at the end
fn le(a: f64, b: f64) -> bool {
    b.is_nan() || a <= b
}

/// Model of the table reader
fn model_table(content: &str, labels: Option<&[&str]>) -> Result<(Vec<String>, Vec<Vec<f64>>), ()> {
    let mut head: Option<Vec<String>> = None;
    let mut rows = Vec::new();
    for line in content.lines() {
        let line = line.trim();
        if line.is_empty() || line.starts_with('#') {
            continue;
        }
        let toks: Vec<&str> = line.split_whitespace().take_while(|t| !t.starts_with('#')).collect();
        match &head {
            None => {
                let h: Vec<String> = toks.iter().map(|s| s.to_string()).collect();
                if let Some(ls) = labels {
                    if h.len() != ls.len() || h.iter().zip(ls).any(|(a, b)| a != b) {
                        return Err(());
                    }
                }
                for i in 0..h.len() {
                    if h[..i].contains(&h[i]) {
                        return Err(());
                    }
                }
                head = Some(h);
            }
            Some(h) => {
                if toks.len() != h.len() {
                    return Err(());
                }
                let mut r = Vec::new();
                for s in toks {
                    r.push(s.parse::<f64>().map_err(|_| ())?);
                }
                rows.push(r);
            }
        }
    }
    Ok((head.unwrap_or_default(), rows))
}

fn model_matrix(content: &str) -> Result<Vec<Vec<f64>>, ()> {
    let mut rows: Vec<Vec<f64>> = Vec::new();
    for line in content.lines() {
        let line = line.trim();
        if line.is_empty() || line.starts_with('#') {
            continue;
        }
        let toks: Vec<&str> = line.split_whitespace().take_while(|t| !t.starts_with('#')).collect();
        let mut r = Vec::new();
        for s in toks {
            r.push(s.parse::<f64>().map_err(|_| ())?);
        }
        if rows.len() > 0 && rows[0].len() != r.len() {
            return Err(());
        }
        rows.push(r);
    }
    Ok(rows)
}

/// Extracts all numbers from a text (anything that parses between separators)
fn numbers(text: &str) -> Vec<f64> {
    text.split(|c: char| !(c.is_ascii_alphanumeric() || c == '.' || c == '-' || c == '+'))
        .filter(|s| s.starts_with(|c: char| c.is_ascii_digit() || c == '-') || *s == "inf" || *s == "NaN")
        .filter_map(|s| s.parse::<f64>().ok())
        .collect()
}

pub fn explore(run: &mut Run) {
    run.level(
        "model_checking",
        "every operation sequence up to the bound applied to vectors/matrices of every small shape and three element types, the complete observable state being compared with a plain-array model after each operation; every short array for the sorting and searching helpers; every short layout of table files",
    );
    run.assume("files contain valid UTF-8 (the readers document a panic otherwise)");
    vector_histories::<f64>(run, "f64", |i| i as f64);
    vector_histories::<i64>(run, "i64", |i| i);
    vector_histories::<Complex64>(run, "complex", |i| cpx!(i as f64, (3 - i) as f64));
    matrix_histories::<f64>(run, "f64", |i| i as f64);
    matrix_histories::<i64>(run, "i64", |i| i);
    matrix_histories::<Complex64>(run, "complex", |i| cpx!(i as f64, (3 - i) as f64));

    // constructors of vectors
    run.section("linspace", 14 + LARGE.len(), |ctx, k| {
        let count = if k < 14 { k } else { LARGE[k - 14] };
        for (a, b) in [(0.0, 1.0), (2.0, 3.0), (-1.0, 1.0), (5.0, -7.0), (1e-3, 1e3), (0.1, 0.7), (3.0, 3.0), (-1e6, 1e-6)] {
            ctx.case(format!("count={} [{},{}]", count, a, b), |t| {
                t.ops(2);
                let x = Vector::linspace(a, b, count)?;
                let mut calls = Vec::new();
                let y = Vector::mapped_linspace(a, b, count, |v| {
                    calls.push(v);
                    2.0 * v + 1.0
                })?;
                ensure!(x.dim() == count && y.dim() == count, "wrong number of points");
                let scale = f64::max(a.abs(), b.abs());
                for i in 0..count {
                    let r = if count == 1 { a } else { a + (b - a) * (i as f64) / ((count - 1) as f64) };
                    ensure!(near(x[i], r, 1e-14 * scale), "point {} is {} instead of {}", i, x[i], r);
                    ensure!(near(y[i], 2.0 * r + 1.0, 4e-14 * (scale + 1.0)), "mapped point {} is {}", i, y[i]);
                    ensure!(calls.iter().any(|c| near(*c, r, 1e-14 * scale)), "function not evaluated at point {}", i);
                }
                ensure!(count == 0 || x[0] == a, "first point is {}", x[0]);
                let f = Vector::filled(count, a);
                ensure!(f.as_data().iter().all(|&v| v == a) && f.dim() == count, "filled is wrong");
                ensure!(Vector::new(count).as_data().iter().all(|&v| v == 0.0), "new is not zero");
                let arr: Vec<f64> = (0..count).map(|i| i as f64 - a).collect();
                let v = Vector::from(&arr);
                ensure!(v.as_data() == &arr, "from differs");
                let w = NumVector::<f64>::from(&arr.as_slice());
                ensure!(w.as_data() == &arr, "from slice differs");
                let ints: Vec<i32> = (0..count as i32).collect();
                let w = NumVector::<f64>::from(&ints);
                ensure!((0..count).all(|i| w[i] == i as f64), "from integers differs");
                Ok(())
            });
        }
    });
    let mut shapes: Vec<(usize, usize)> = (0..7).flat_map(|nx| (0..7).map(move |ny| (nx, ny))).collect();
    shapes.extend(LARGE_SHAPES);
    run.section("grid", shapes.len(), |ctx, k| {
        let (nx, ny) = shapes[k];
        {
            for (x0, x1, y0, y1) in [(0.0, 1.0, 0.0, 1.0), (-1.0, 3.0, 5.0, 9.0), (2.0, -2.0, 10.0, 10.5), (0.1, 0.7, -3.0, -2.9)] {
                ctx.case(format!("nx={} ny={} [{},{}]x[{},{}]", nx, ny, x0, x1, y0, y1), |t| {
                    t.ops(2);
                    let f = |x: f64, y: f64| 3.0 * x - y * y;
                    let (x, y) = generate2d(x0, x1, y0, y1, nx, ny);
                    let (u, v, z) = generate3d(x0, x1, y0, y1, nx, ny, f);
                    for m in [&x, &y, &u, &v, &z] {
                        ensure!(m.dims() == (ny, nx), "dims {:?}", m.dims());
                    }
                    for i in 0..ny {
                        for j in 0..nx {
                            let rx = if nx == 1 { x0 } else { x0 + (x1 - x0) * j as f64 / (nx - 1) as f64 };
                            let ry = if ny == 1 { y0 } else { y0 + (y1 - y0) * i as f64 / (ny - 1) as f64 };
                            ensure!(near(x.get(i, j), rx, 1e-13) && near(u.get(i, j), rx, 1e-13), "x({},{}) = {}", i, j, x.get(i, j));
                            ensure!(near(y.get(i, j), ry, 1e-13) && near(v.get(i, j), ry, 1e-13), "y({},{}) = {}", i, j, y.get(i, j));
                            ensure!(z.get(i, j) == f(u.get(i, j), v.get(i, j)), "z({},{}) = {}", i, j, z.get(i, j));
                        }
                    }
                    Ok(())
                });
            }
        }
    });

    // sorting
    let vals = [-1.0, 0.0, 2.5, f64::NAN];
    let maxlen = run.pick(6, 8);
    run.section("argsort", maxlen + 1, |ctx, n| {
        for i in 0..pow(4, n) {
            let x: Vec<f64> = digits(i, 4, n).iter().map(|&d| vals[d]).collect();
            ctx.case(format!("{:?}", x), |t| {
                t.op();
                let p = argsort_f64(&x);
                ensure!(is_perm(&p, n), "not a permutation: {:?}", p);
                for k in 1..n {
                    ensure!(le(x[p[k - 1]], x[p[k]]), "not sorted: {:?}", p);
                }
                if x.iter().all(|v| !v.is_nan()) {
                    let (imin, imax) = find_min_max(&x);
                    if n == 0 {
                        ensure!(imin == usize::MAX && imax == usize::MAX, "indices of an empty array");
                    } else {
                        ensure!(x.iter().all(|v| *v >= x[imin] && *v <= x[imax]), "min/max at {} {}", imin, imax);
                        let imag = find_index_abs_max(&x);
                        let first = (0..n).find(|&k| x.iter().all(|v| v.abs() <= x[k].abs())).unwrap();
                        ensure!(imag == first, "first largest magnitude at {} instead of {}", imag, first);
                    }
                }
                Ok(())
            });
        }
    });
    // long arrays: increasing, decreasing, constant, zigzag, with ties, rotated; and one value out of place at every position
    let long = run.pick(70, 200);
    run.section("argsort-long", long, |ctx, n| {
        let n = n + 1;
        for shape in 0..6 {
            let base: Vec<f64> = (0..n)
                .map(|i| match shape {
                    0 => i as f64,
                    1 => -(i as f64),
                    2 => 1.0,
                    3 => i as f64 * if i % 2 == 0 { 1.0 } else { -1.0 },
                    4 => (i % 5) as f64,
                    _ => ((i + n / 3) % n) as f64,
                })
                .collect();
            for at in 0..n {
                for v in [-1e3, 1e3, 0.5, f64::NAN] {
                    ctx.case(format!("n={} shape={} x[{}]={}", n, shape, at, v), |t| {
                        t.ops(5);
                        let mut x = base.clone();
                        x[at] = v;
                        let p = argsort_f64(&x);
                        ensure!(is_perm(&p, n) && (1..n).all(|k| le(x[p[k - 1]], x[p[k]])), "not sorted: {:?}", p);
                        let c = vec![2.5; n];
                        let p = argsort2_f64(&c, &x);
                        ensure!(is_perm(&p, n) && (1..n).all(|k| le(x[p[k - 1]], x[p[k]])), "argsort2: {:?}", p);
                        let p = argsort3_f64(&x, &c, &base);
                        ensure!(is_perm(&p, n) && (1..n).all(|k| le(x[p[k - 1]], x[p[k]])), "argsort3: {:?}", p);
                        if !v.is_nan() {
                            let (imin, imax) = find_min_max(&x);
                            ensure!(x.iter().all(|v| *v >= x[imin] && *v <= x[imax]), "min/max at {} {}", imin, imax);
                            let imag = find_index_abs_max(&x);
                            let first = (0..n).find(|&k| x.iter().all(|v| v.abs() <= x[k].abs())).unwrap();
                            ensure!(imag == first, "first largest magnitude at {} instead of {}", imag, first);
                        }
                        Ok(())
                    });
                }
            }
        }
    });
    let m2 = run.pick(4, 5);
    run.section("argsort23", m2 + 1, |ctx, n| {
        for i in 0..pow(9, n) {
            let d = digits(i, 9, n);
            let y: Vec<f64> = d.iter().map(|&v| vals[v / 3]).collect();
            let x: Vec<f64> = d.iter().map(|&v| vals[v % 3 + 1]).collect();
            // the third key is the first one reversed, plus NaN
            let z: Vec<f64> = d.iter().map(|&v| [0.0, 1.0, f64::NAN][(v * 2 + 1) % 3]).collect();
            ctx.case(format!("{:?} {:?} {:?}", z, y, x), |t| {
                t.ops(2);
                let p = argsort2_f64(&y, &x);
                ensure!(is_perm(&p, n), "not a permutation: {:?}", p);
                let eq = |a: f64, b: f64| a == b || (a.is_nan() && b.is_nan());
                for k in 1..n {
                    let (a, b) = (p[k - 1], p[k]);
                    ensure!(if eq(y[a], y[b]) { le(x[a], x[b]) } else { le(y[a], y[b]) }, "argsort2 not sorted: {:?}", p);
                }
                let p = argsort3_f64(&z, &y, &x);
                ensure!(is_perm(&p, n), "not a permutation: {:?}", p);
                for k in 1..n {
                    let (a, b) = (p[k - 1], p[k]);
                    let ok = if !eq(z[a], z[b]) {
                        le(z[a], z[b])
                    } else if !eq(y[a], y[b]) {
                        le(y[a], y[b])
                    } else {
                        le(x[a], x[b])
                    };
                    ensure!(ok, "argsort3 not sorted: {:?}", p);
                }
                Ok(())
            });
        }
    });
    run.section("sort-tuples", 256, |ctx, i| {
        let d = digits(i, 4, 4);
        ctx.case(format!("{:?}", d), |t| {
            t.ops(3);
            let sorted = |v: &[usize]| {
                let mut w = v.to_vec();
                w.sort();
                w
            };
            let mut a = (d[0], d[1]);
            sort2(&mut a);
            ensure!(vec![a.0, a.1] == sorted(&d[..2]), "sort2 {:?}", a);
            let mut a = (d[0], d[1], d[2]);
            sort3(&mut a);
            ensure!(vec![a.0, a.1, a.2] == sorted(&d[..3]), "sort3 {:?}", a);
            let mut a = (d[0], d[1], d[2], d[3]);
            sort4(&mut a);
            ensure!(vec![a.0, a.1, a.2, a.3] == sorted(&d), "sort4 {:?}", a);
            Ok(())
        });
    });
    let mv = run.pick(8, 10);
    run.section("valleys-peaks", mv + 1, |ctx, n| {
        for i in 0..pow(3, n) {
            let x: Vec<i32> = digits(i, 3, n).iter().map(|&v| v as i32).collect();
            ctx.case(format!("{:?}", x), |t| {
                t.op();
                let (va, pe, imin, imax) = find_valleys_and_peaks(&x);
                // maximal constant runs
                let mut runs: Vec<(usize, usize)> = Vec::new();
                for k in 0..n {
                    if k > 0 && x[k] == x[k - 1] {
                        runs.last_mut().unwrap().1 = k;
                    } else {
                        runs.push((k, k));
                    }
                }
                let mut rv = Vec::new();
                let mut rp = Vec::new();
                for k in 1..runs.len().max(1) - if runs.len() > 0 { 1 } else { 0 } {
                    let (a, b, c) = (x[runs[k - 1].0], x[runs[k].0], x[runs[k + 1].0]);
                    if a > b && b < c {
                        rv.push(runs[k]);
                    }
                    if a < b && b > c {
                        rp.push(runs[k]);
                    }
                }
                ensure!(va.len() == rv.len() && va.iter().zip(&rv).all(|(i, r)| *i >= r.0 && *i <= r.1), "valleys {:?} instead of {:?}", va, rv);
                ensure!(pe.len() == rp.len() && pe.iter().zip(&rp).all(|(i, r)| *i >= r.0 && *i <= r.1), "peaks {:?} instead of {:?}", pe, rp);
                if n > 0 {
                    ensure!(x.iter().all(|v| *v >= x[imin] && *v <= x[imax]), "min/max at {} {}", imin, imax);
                }
                Ok(())
            });
        }
    });

    // files
    let dir = scratch();
    let lines = ["", "# note", "1 2", "  -3.5\t4e1  # c", "5", "6 7 8", "x 9", "#1 2", "\t ", "0.1 1e-300"];
    let headers = ["a b", " a\tb # h", "a", "a a", "b a", "# c\n\na b c"];
    let depth = 3;
    run.section("table-files", headers.len() * lines.len(), |ctx, w| {
        let header = headers[w / lines.len()];
        for i in 0..pow(lines.len(), depth - 1) {
            let mut seq = vec![w % lines.len()];
            seq.extend(digits(i, lines.len(), depth - 1));
            for crlf in [false, true] {
                if crlf && i % 7 != 0 {
                    continue;
                }
                let nl = if crlf { "\r\n" } else { "\n" };
                let body: Vec<&str> = seq.iter().map(|&k| lines[k]).collect();
                ctx.case(format!("header={:?} lines={:?} crlf={}", header, seq, crlf), |t| {
                    let content = format!("{}{}{}", header.replace('\n', nl), nl, body.join(nl));
                    let path = format!("{}/table-{}.txt", dir, w);
                    fs::write(&path, &content).unwrap();
                    for labels in [None, Some(&["a", "b"][..]), Some(&["a"][..]), Some(&["a", "b", "c"][..])] {
                        t.op();
                        let res: Result<HashMap<String, Vec<f64>>, StrError> = read_table(&path, labels);
                        match (res, model_table(&content, labels)) {
                            (Ok(table), Ok((head, rows))) => {
                                for (c, name) in head.iter().enumerate() {
                                    let col: Vec<f64> = rows.iter().map(|r| r[c]).collect();
                                    let got = table.get(name).cloned().unwrap_or_default();
                                    ensure!(got == col, "column {} is {:?} instead of {:?} (labels {:?})", name, got, col, labels);
                                }
                                ensure!(table.keys().all(|k| head.contains(k)), "unexpected columns {:?}", table.keys());
                            }
                            (Err(_), Err(_)) => (),
                            (Ok(v), Err(_)) => fail!("accepted: {:?} (labels {:?})", v, labels),
                            (Err(e), Ok(_)) => fail!("refused: {} (labels {:?})", e, labels),
                        }
                    }
                    if !content.contains('a') || header == "# c" {
                        return Ok(());
                    }
                    // the body alone is a matrix file
                    fs::write(&path, body.join(nl)).unwrap();
                    t.op();
                    match (Matrix::from_text_file(&path), model_matrix(&body.join(nl))) {
                        (Ok(a), Ok(rows)) => {
                            let nc = if rows.len() > 0 { rows[0].len() } else { 0 };
                            ensure!(a.dims() == (rows.len(), nc), "dims {:?} instead of {:?}", a.dims(), (rows.len(), nc));
                            for i in 0..rows.len() {
                                for j in 0..nc {
                                    ensure!(a.get(i, j) == rows[i][j], "entry ({},{}) is {} instead of {}", i, j, a.get(i, j), rows[i][j]);
                                }
                            }
                        }
                        (Err(_), Err(_)) => (),
                        (Ok(a), Err(_)) => fail!("matrix file accepted: {:?}", a.as_data()),
                        (Err(e), Ok(_)) => fail!("matrix file refused: {}", e),
                    }
                    Ok(())
                });
            }
        }
    });
    // many rows and columns
    run.section("large-files", LARGE_SHAPES.len(), |ctx, w| {
        let (nr, nc) = LARGE_SHAPES[w];
        for gap in [0, 1, 5] {
            ctx.case(format!("{nr}x{nc} gap={gap}"), |t| {
                t.ops(2);
                let val = |i: usize, j: usize| (i * 1000 + j) as f64 / 8.0 - 3.0;
                let head: Vec<String> = (0..nc).map(|j| format!("c{j}")).collect();
                let mut body = String::new();
                for i in 0..nr {
                    let row: Vec<String> = (0..nc).map(|j| format!("{}", val(i, j))).collect();
                    body += &(row.join("  ") + "\n");
                    if gap > 0 && i % gap == 0 {
                        body += "\n# note\n";
                    }
                }
                let path = format!("{}/large-{}.txt", dir, w);
                fs::write(&path, format!("{}\n{}", head.join(" "), body)).unwrap();
                let table: HashMap<String, Vec<f64>> = read_table(&path, None)?;
                ensure!(table.len() == nc, "{} columns", table.len());
                for j in 0..nc {
                    let col: Vec<f64> = (0..nr).map(|i| val(i, j)).collect();
                    ensure!(table.get(&head[j]) == Some(&col), "column {j} is {:?}", table.get(&head[j]));
                }
                fs::write(&path, &body).unwrap();
                let a = Matrix::from_text_file(&path)?;
                ensure!(a.dims() == (nr, nc), "dims {:?}", a.dims());
                for i in 0..nr {
                    for j in 0..nc {
                        ensure!(a.get(i, j) == val(i, j), "entry ({i},{j}) is {}", a.get(i, j));
                    }
                }
                t.state(&(nr, nc, gap));
                Ok(())
            });
        }
    });
    run.section("missing-file", 1, |ctx, _| {
        ctx.case("missing", |t| {
            t.ops(2);
            let path = format!("{}/does-not-exist", dir);
            ensure!(Matrix::from_text_file(&path).is_err(), "missing matrix file accepted");
            ensure!(read_data(&path, &["a"]).is_err(), "missing table file accepted");
            Ok(())
        });
    });

    // textual exports
    let mut shapes: Vec<(usize, usize)> = (0..5).flat_map(|r| (0..5).map(move |c| (r, c))).collect();
    shapes.extend(LARGE_SHAPES);
    run.section("exports", shapes.len(), |ctx, k| {
        let (r, c) = shapes[k];
        {
            for tol in [0.0, 0.5, 2.0] {
                ctx.case(format!("{}x{} tol={}", r, c, tol), |t| {
                    t.ops(4);
                    let a = Matrix::initialized(r, c, |i, j| [0.0, -0.25, 1.5, 2.0, -3.0, 1e-7, 4e8][(i * 3 + j * 5) % 7]);
                    let row_major: Vec<f64> = (0..r).flat_map(|i| (0..c).map(move |j| (i, j))).map(|(i, j)| a.get(i, j)).collect();
                    if r > 0 && c > 0 {
                        ensure!(numbers(&mat_to_numpy("name", &a)) == row_major, "mat_to_numpy: {}", mat_to_numpy("name", &a));
                        ensure!(numbers(&mat_to_mathematica("name", &a)) == row_major, "mat_to_mathematica: {}", mat_to_mathematica("name", &a));
                        let text = mat_to_static_array("NAME", &a);
                        let tail = &text[text.find("= [\n").unwrap()..];
                        ensure!(numbers(tail) == row_major, "mat_to_static_array: {}", text);
                        ensure!(text.contains(&format!("[[f64; {}]; {}]", c, r)), "mat_to_static_array: type {}", text);
                        let v = Vector::from(&row_major);
                        let text = vec_to_static_array("NAME", &v);
                        let tail = &text[text.find("= [\n").unwrap()..];
                        ensure!(numbers(tail) == row_major, "vec_to_static_array: {}", text);
                        let tok = display_tokens(&vec_fmt_scientific(&v, 6))?;
                        let got: Vec<f64> = tok.iter().map(|l| l[0].parse().unwrap()).collect();
                        ensure!(got == row_major, "vec_fmt_scientific: {:?}", got);
                    }
                    let path = format!("{}/vis-{}-{}.smat", dir, r, c);
                    mat_write_vismatrix(&path, &a, tol)?;
                    let text = fs::read_to_string(&path).unwrap();
                    let mut lines = text.lines();
                    let head: Vec<usize> = lines.next().unwrap().split_whitespace().map(|s| s.parse().unwrap()).collect();
                    let mut want = Vec::new();
                    for i in 0..r {
                        for j in 0..c {
                            if a.get(i, j).abs() > tol {
                                want.push((i, j, a.get(i, j)));
                            }
                        }
                    }
                    let mut got: Vec<(usize, usize, f64)> = lines
                        .map(|l| {
                            let w: Vec<&str> = l.split_whitespace().collect();
                            (w[0].parse().unwrap(), w[1].parse().unwrap(), w[2].parse().unwrap())
                        })
                        .collect();
                    got.sort_by(|a, b| a.partial_cmp(b).unwrap());
                    ensure!(head == vec![r, c, want.len()], "vismatrix header {:?}", head);
                    ensure!(got == want, "vismatrix entries {:?} instead of {:?}", got, want);
                    // band storage
                    for ml in 0..4 {
                        for mu in 0..4 {
                            let mut band = Matrix::filled(ml + mu + 1, c, 77.0);
                            mat_convert_to_blas_band(&mut band, &a, ml, mu)?;
                            for i in 0..r {
                                for j in 0..c {
                                    if i <= j + ml && j <= i + mu {
                                        ensure!(band.get(i + mu - j, j) == a.get(i, j), "band ({},{}) ml={} mu={}", i, j, ml, mu);
                                    }
                                }
                            }
                            ensure!(mat_convert_to_blas_band(&mut Matrix::new(ml + mu + 2, c), &a, ml, mu).is_err(), "wrong band accepted");
                        }
                    }
                    Ok(())
                });
            }
        }
    });

    // formatting of numbers and times
    let nums = [0.0, 1.0, -1.0, 0.1, -123.456, 9.999999, 1e10, 1e-10, 1e100, -1e-100, 1e308, 5e-324, 0.5, 99999.5];
    run.section("format-numbers", nums.len(), |ctx, i| {
        for width in [0, 5, 12, 23, 30] {
            for prec in 0..16 {
                ctx.case(format!("{:e} w={} p={}", nums[i], width, prec), |t| {
                    t.ops(2);
                    let s = format_scientific(nums[i], width, prec);
                    ensure!(s.chars().count() >= width, "width {} not honoured: {:?}", width, s);
                    let v: f64 = s.trim().parse().map_err(|_| format!("not a number: {:?}", s))?;
                    let r: f64 = format!("{:.1$e}", nums[i], prec).parse().unwrap();
                    ensure!(v == r, "{:?} instead of {}", s, r);
                    let v: f64 = format_fortran(nums[i]).trim().parse().unwrap();
                    ensure!((v - nums[i]).abs() <= 1e-15 * nums[i].abs(), "fortran {} instead of {}", v, nums[i]);
                    let mut buf = String::new();
                    write_formatted_number(&mut buf, nums[i], width, Some(prec), None);
                    ensure!(buf == format!("{:>w$.p$}", nums[i], w = width, p = prec), "standard format {:?}", buf);
                    let mut buf = String::new();
                    write_formatted_number(&mut buf, nums[i], width, None, Some(prec));
                    ensure!(buf == s, "scientific format {:?}", buf);
                    Ok(())
                });
            }
        }
    });
    run.section("format-times", 1, |ctx, _| {
        let parts: [u128; 5] = [0, 1, 999, 1000, 59];
        for h in [0u128, 1, 25] {
            for m in [0u128, 1, 59] {
                for s in [0u128, 1, 59] {
                    for ms in parts {
                        for us in parts {
                            for ns in parts {
                                let total = ((h * 60 + m) * 60 + s) * 1_000_000_000 + ms * 1_000_000 + us * 1000 + ns;
                                ctx.case(format!("{}ns", total), |t| {
                                    t.ops(2);
                                    for text in [format_nanoseconds(total), format_nanoseconds_with_digits(total, 9)] {
                                        // sum the parts
                                        let mut sum = 0.0;
                                        let mut num = String::new();
                                        let mut unit = String::new();
                                        let mut flush = |num: &mut String, unit: &mut String| -> Outcome {
                                            if num.is_empty() {
                                                return Ok(());
                                            }
                                            let f = match unit.as_str() {
                                                "h" => 3.6e12,
                                                "m" => 6e10,
                                                "s" => 1e9,
                                                "ms" => 1e6,
                                                "µs" => 1e3,
                                                "ns" => 1.0,
                                                u => fail!("unknown unit {:?}", u),
                                            };
                                            sum += num.parse::<f64>().map_err(|_| format!("bad number {:?}", num))? * f;
                                            num.clear();
                                            unit.clear();
                                            Ok(())
                                        };
                                        for ch in text.chars() {
                                            if ch.is_ascii_digit() || ch == '.' {
                                                if !unit.is_empty() {
                                                    flush(&mut num, &mut unit)?;
                                                }
                                                num.push(ch);
                                            } else {
                                                unit.push(ch);
                                            }
                                        }
                                        flush(&mut num, &mut unit)?;
                                        ensure!((sum - total as f64).abs() <= 1.0, "{} means {} ns instead of {}", text, sum, total);
                                    }
                                    Ok(())
                                });
                            }
                        }
                    }
                }
            }
        }
    });
}
