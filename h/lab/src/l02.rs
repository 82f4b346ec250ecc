//! L02: dense solvers and factorizations on completely enumerated families of small matrices

use mc::*;
use russell_lab::*;

const TOL: f64 = 1e-10;

/// Exact determinant (Bareiss)
fn det_int(a: &[Vec<i64>]) -> i128 {
    let n = a.len();
    let mut m: Vec<Vec<i128>> = a.iter().map(|r| r.iter().map(|&x| x as i128).collect()).collect();
    let mut sign = 1;
    let mut prev = 1;
    for k in 0..n {
        if m[k][k] == 0 {
            match (k + 1..n).find(|&i| m[i][k] != 0) {
                Some(i) => {
                    m.swap(i, k);
                    sign = -sign;
                }
                None => return 0,
            }
        }
        for i in k + 1..n {
            for j in k + 1..n {
                m[i][j] = (m[i][j] * m[k][k] - m[i][k] * m[k][j]) / prev;
            }
        }
        prev = m[k][k];
    }
    sign * if n == 0 { 1 } else { m[n - 1][n - 1] }
}

fn minors_positive(a: &[Vec<i64>]) -> (bool, bool) {
    // (all leading minors > 0, some leading minor < 0)
    let n = a.len();
    let mut all = true;
    let mut neg = false;
    for k in 1..=n {
        let sub: Vec<Vec<i64>> = (0..k).map(|i| a[i][0..k].to_vec()).collect();
        let d = det_int(&sub);
        all &= d > 0;
        if d <= 0 {
            neg = d < 0;
            break;
        }
    }
    (all, neg)
}

fn to_mat(a: &[Vec<i64>]) -> Matrix {
    let n = a.len();
    let c = if n > 0 { a[0].len() } else { 0 };
    Matrix::initialized(n, c, |i, j| a[i][j] as f64)
}

fn to_cmat(a: &[Vec<(i64, i64)>]) -> ComplexMatrix {
    let n = a.len();
    ComplexMatrix::initialized(n, a[0].len(), |i, j| cpx!(a[i][j].0 as f64, a[i][j].1 as f64))
}

fn amax(a: &Matrix) -> f64 {
    a.as_data().iter().fold(1.0, |m: f64, x| m.max(x.abs()))
}

fn camax(a: &ComplexMatrix) -> f64 {
    a.as_data().iter().fold(1.0, |m: f64, x| m.max(x.norm()))
}

fn show(a: &[Vec<i64>]) -> String {
    a.iter().map(|r| r.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")).collect::<Vec<_>>().join(";")
}

fn cshow(a: &[Vec<(i64, i64)>]) -> String {
    a.iter()
        .map(|r| r.iter().map(|x| format!("{}{:+}i", x.0, x.1)).collect::<Vec<_>>().join(","))
        .collect::<Vec<_>>()
        .join(";")
}

/// max |x*y - z|
fn mul_err(x: &Matrix, y: &Matrix, z: &dyn Fn(usize, usize) -> f64) -> f64 {
    let mut err: f64 = 0.0;
    for i in 0..x.nrow() {
        for j in 0..y.ncol() {
            let s: f64 = (0..x.ncol()).map(|k| x.get(i, k) * y.get(k, j)).sum();
            let e = (s - z(i, j)).abs();
            if !(e <= err) {
                err = e;
            }
        }
    }
    err
}

fn cmul_err(x: &ComplexMatrix, y: &ComplexMatrix, z: &dyn Fn(usize, usize) -> Complex64) -> f64 {
    let mut err: f64 = 0.0;
    for i in 0..x.nrow() {
        for j in 0..y.ncol() {
            let s: Complex64 = (0..x.ncol()).map(|k| x.get(i, k) * y.get(k, j)).sum();
            let e = (s - z(i, j)).norm();
            if !(e <= err) {
                err = e;
            }
        }
    }
    err
}

fn delta(i: usize, j: usize) -> f64 {
    if i == j {
        1.0
    } else {
        0.0
    }
}

fn ct(a: &ComplexMatrix) -> ComplexMatrix {
    ComplexMatrix::initialized(a.ncol(), a.nrow(), |i, j| a.get(j, i).conj())
}

fn to_c(a: &Matrix) -> ComplexMatrix {
    ComplexMatrix::initialized(a.nrow(), a.ncol(), |i, j| cpx!(a.get(i, j), 0.0))
}

fn rhs(n: usize, k: usize) -> Vector {
    Vector::initialized(n, |i| ((i * 7 + k * 5 + 3) % 11) as f64 - 5.0)
}

/// Inverse, linear solves and determinants of one square matrix
fn check_square(t: &mut Trace, ai: &[Vec<i64>], singular_must_fail: bool) -> Outcome {
    let n = ai.len();
    let zero_line = (0..n).any(|r| ai[r].iter().all(|&x| x == 0)) || (0..n).any(|k| (0..n).all(|r| ai[r][k] == 0));
    let det = det_int(ai) as f64;
    let a = to_mat(ai);
    let scale = amax(&a);
    // inverse
    let mut inv = Matrix::filled(n, n, 123.0);
    t.op();
    match mat_inverse(&mut inv, &a) {
        Ok(d) => {
            ensure!(det != 0.0 || !singular_must_fail, "inverse of a singular matrix returned Ok(det={})", d);
            if det != 0.0 {
                ensure!(rel(d, det, TOL), "determinant {} instead of {}", d, det);
                let s = amax(&inv) * scale;
                let e = mul_err(&a, &inv, &delta);
                ensure!(e <= TOL * s, "A * inverse(A) differs from identity by {}", e);
            }
        }
        Err(e) => ensure!(det == 0.0, "inverse of a non-singular matrix (det={}) refused: {}", det, e),
    }
    ensure!(a.as_data() == to_mat(ai).as_data(), "mat_inverse modified its input");
    // linear system
    for k in 0..2 {
        let b = rhs(n, k);
        let mut x = b.clone();
        let mut m = a.clone();
        t.op();
        match solve_lin_sys(&mut x, &mut m) {
            Ok(()) => {
                ensure!(!zero_line, "singular system solved");
                if det != 0.0 {
                    let xs = x.as_data().iter().fold(1.0, |m: f64, v| m.max(v.abs()));
                    for i in 0..n {
                        let r: f64 = (0..n).map(|j| a.get(i, j) * x[j]).sum::<f64>() - b[i];
                        ensure!(r.abs() <= TOL * scale * xs, "residual of row {} is {}", i, r);
                    }
                }
            }
            Err(e) => ensure!(det == 0.0, "solve refused a non-singular matrix: {}", e),
        }
    }
    Ok(())
}

fn check_small<const N: usize>(t: &mut Trace, ai: &[Vec<i64>], singular_must_fail: bool) -> Outcome {
    let n = ai.len();
    let det = det_int(ai) as f64;
    let a = to_mat(ai);
    let scale = amax(&a);
    // leading block of a larger array
    let arr: [[f64; N]; N] = std::array::from_fn(|i| std::array::from_fn(|j| if i < n && j < n { a.get(i, j) } else { 99.0 + (i * 7 + j) as f64 }));
    let out0: [[f64; N]; N] = std::array::from_fn(|i| std::array::from_fn(|j| -55.0 - (i * 11 + j) as f64));
    let mut out = out0;
    t.op();
    match small_mat_inv(&mut out, &arr, n) {
        Ok(d) => {
            ensure!(det != 0.0 || !singular_must_fail, "small_mat_inv: singular accepted");
            if det != 0.0 {
                ensure!(rel(d, det, TOL), "small_mat_inv: determinant {} instead of {}", d, det);
                let m = Matrix::initialized(n, n, |i, j| out[i][j]);
                let e = mul_err(&a, &m, &delta);
                ensure!(e <= TOL * scale * amax(&m), "small_mat_inv: error {}", e);
            }
            for i in 0..N {
                for j in 0..N {
                    if i >= n || j >= n {
                        ensure!(out[i][j] == out0[i][j], "small_mat_inv wrote outside of the leading block at ({},{})", i, j);
                    }
                }
            }
        }
        Err(e) => ensure!(det == 0.0, "small_mat_inv refused a non-singular matrix: {}", e),
    }
    if n == N {
        let mut m = arr;
        let b = rhs(N, 0);
        let mut x: [f64; N] = std::array::from_fn(|i| b[i]);
        t.op();
        match small_solve_lin_sys(&mut x, &mut m) {
            Ok(()) => {
                if det != 0.0 {
                    let xs = x.iter().fold(1.0, |m: f64, v| m.max(v.abs()));
                    for i in 0..n {
                        let r: f64 = (0..n).map(|j| arr[i][j] * x[j]).sum::<f64>() - b[i];
                        ensure!(r.abs() <= TOL * scale * xs, "small_solve: residual of row {} is {}", i, r);
                    }
                } else {
                    ensure!(!singular_must_fail, "small_solve: singular system solved");
                }
            }
            Err(e) => ensure!(det == 0.0, "small_solve refused: {}", e),
        }
        let mut m = arr;
        let mut bb: [[f64; 2]; N] = std::array::from_fn(|i| [rhs(N, 0)[i], rhs(N, 1)[i]]);
        t.ops(2);
        match num_recipes_gaussj_sol(&mut m, &mut bb) {
            Ok(()) => {
                if det != 0.0 {
                    let mm = Matrix::initialized(n, n, |i, j| m[i][j]);
                    let e = mul_err(&a, &mm, &delta);
                    ensure!(e <= TOL * scale * amax(&mm), "gaussj: inverse error {}", e);
                    let x = Matrix::initialized(n, 2, |i, j| bb[i][j]);
                    let e = mul_err(&a, &x, &|i, j| rhs(N, j)[i]);
                    ensure!(e <= TOL * scale * amax(&x), "gaussj: solution error {}", e);
                    let mut m2 = arr;
                    num_recipes_gaussj_inv(&mut m2)?;
                    let mm = Matrix::initialized(n, n, |i, j| m2[i][j]);
                    let e = mul_err(&a, &mm, &delta);
                    ensure!(e <= TOL * scale * amax(&mm), "gaussj_inv: inverse error {}", e);
                } else {
                    ensure!(!singular_must_fail, "gaussj: singular system solved");
                }
            }
            Err(e) => ensure!(det == 0.0, "gaussj refused: {}", e),
        }
    }
    Ok(())
}

fn check_general_eigen(t: &mut Trace, ai: &[Vec<i64>]) -> Outcome {
    let n = ai.len();
    let a = to_mat(ai);
    let ac = to_c(&a);
    let scale = amax(&a);
    let new = || Vector::filled(n, 7.0);
    let newm = || Matrix::filled(n, n, 7.0);
    // traces of powers
    let mut traces = Vec::new();
    let mut p = Matrix::identity(n);
    for _ in 0..n {
        let q = Matrix::initialized(n, n, |i, j| (0..n).map(|k| p.get(i, k) * a.get(k, j)).sum());
        p = q;
        traces.push((0..n).map(|i| p.get(i, i)).sum::<f64>());
    }
    let spectrum = |name: &str, lr: &Vector, li: &Vector| -> Outcome {
        let mut z: Vec<Complex64> = vec![cpx!(1.0, 0.0); n];
        for k in 0..n {
            let mut s = cpx!(0.0, 0.0);
            for i in 0..n {
                z[i] = z[i] * cpx!(lr[i], li[i]);
                s = s + z[i];
            }
            let sc = (scale * n as f64).powi(k as i32 + 1);
            ensure!((s - traces[k]).norm() <= 1e-9 * sc, "{}: sum of eigenvalues^{} is {:?} instead of {}", name, k + 1, s, traces[k]);
        }
        Ok(())
    };
    let (mut lr, mut li, mut vr, mut vi) = (new(), new(), newm(), newm());
    t.op();
    mat_eigen(&mut lr, &mut li, &mut vr, &mut vi, &mut a.clone())?;
    spectrum("mat_eigen", &lr, &li)?;
    let right = |name: &str, lr: &Vector, li: &Vector, v: &ComplexMatrix| -> Outcome {
        for j in 0..n {
            let norm: f64 = (0..n).map(|i| v.get(i, j).norm_sqr()).sum::<f64>().sqrt();
            ensure!((norm - 1.0).abs() < 1e-8, "{}: eigenvector {} has norm {}", name, j, norm);
        }
        let e = cmul_err(&ac, v, &|i, j| v.get(i, j) * cpx!(lr[j], li[j]));
        ensure!(e <= TOL * scale * n as f64, "{}: A v - l v = {}", name, e);
        Ok(())
    };
    let cplx = |r: &Matrix, i: &Matrix| ComplexMatrix::initialized(n, n, |p, q| cpx!(r.get(p, q), i.get(p, q)));
    right("mat_eigen", &lr, &li, &cplx(&vr, &vi))?;
    let (mut lr, mut li, mut ur, mut ui, mut vr, mut vi) = (new(), new(), newm(), newm(), newm(), newm());
    t.op();
    mat_eigen_lr(&mut lr, &mut li, &mut ur, &mut ui, &mut vr, &mut vi, &mut a.clone())?;
    spectrum("mat_eigen_lr", &lr, &li)?;
    right("mat_eigen_lr", &lr, &li, &cplx(&vr, &vi))?;
    let u = cplx(&ur, &ui);
    let uh = ct(&u);
    let e = cmul_err(&uh, &ac, &|i, j| uh.get(i, j) * cpx!(lr[i], li[i]));
    ensure!(e <= TOL * scale * n as f64, "mat_eigen_lr: u^H A - l u^H = {}", e);
    for j in 0..n {
        let norm: f64 = (0..n).map(|i| u.get(i, j).norm_sqr()).sum::<f64>().sqrt();
        ensure!((norm - 1.0).abs() < 1e-8, "left eigenvector {} has norm {}", j, norm);
    }
    let (mut lr, mut li) = (new(), new());
    t.op();
    mat_eigenvalues(&mut lr, &mut li, &mut a.clone())?;
    spectrum("mat_eigenvalues", &lr, &li)
}

fn check_symmetric(t: &mut Trace, ai: &[Vec<i64>]) -> Outcome {
    let n = ai.len();
    let a = to_mat(ai);
    let scale = amax(&a) * n as f64;
    let tri = |upper: bool, junk: f64| Matrix::initialized(n, n, |i, j| if (upper && i > j) || (!upper && i < j) { junk } else { a.get(i, j) });
    let orth = |name: &str, v: &Matrix, l: &Vector| -> Outcome {
        let vt = v.transposed();
        let e = mul_err(&vt, v, &delta);
        ensure!(e <= TOL, "{}: eigenvectors are not orthonormal ({})", name, e);
        let e = mul_err(&a, v, &|i, j| v.get(i, j) * l[j]);
        ensure!(e <= TOL * scale, "{}: A v - l v = {}", name, e);
        Ok(())
    };
    for upper in [false, true] {
        let mut m = tri(upper, 777.0);
        let mut l = Vector::filled(n, 7.0);
        t.op();
        mat_eigen_sym(&mut l, &mut m, upper)?;
        orth("mat_eigen_sym", &m, &l)?;
        for i in 1..n {
            ensure!(l[i - 1] <= l[i], "mat_eigen_sym: eigenvalues are not ascending");
        }
        // Cholesky
        let (pos, neg) = minors_positive(ai);
        let mut m = tri(upper, 777.0);
        t.op();
        match mat_cholesky(&mut m, upper) {
            Ok(()) => {
                ensure!(!neg, "mat_cholesky accepted an indefinite matrix");
                if pos {
                    let f = Matrix::initialized(n, n, |i, j| if (upper && i > j) || (!upper && i < j) { 0.0 } else { m.get(i, j) });
                    let ft = f.transposed();
                    let e = if upper { mul_err(&ft, &f, &|i, j| a.get(i, j)) } else { mul_err(&f, &ft, &|i, j| a.get(i, j)) };
                    ensure!(e <= TOL * scale, "mat_cholesky: error {}", e);
                    for i in 0..n {
                        ensure!(m.get(i, i) > 0.0, "mat_cholesky: non-positive diagonal");
                        for j in 0..n {
                            if (upper && i > j) || (!upper && i < j) {
                                ensure!(m.get(i, j) == 777.0, "mat_cholesky changed the other triangle");
                            }
                        }
                    }
                }
            }
            Err(e) => ensure!(!pos, "mat_cholesky refused a positive definite matrix: {}", e),
        }
    }
    let mut m = a.clone();
    let mut l = Vector::filled(n, 7.0);
    let mut v = Matrix::filled(n, n, 7.0);
    t.op();
    mat_eigen_sym_jacobi(&mut l, &mut v, &mut m)?;
    orth("mat_eigen_sym_jacobi", &v, &l)
}

fn check_svd(t: &mut Trace, ai: &[Vec<i64>]) -> Outcome {
    let a = to_mat(ai);
    let (m, n) = a.dims();
    let scale = amax(&a) * (m + n) as f64;
    let k = m.min(n);
    let (mut s, mut u, mut vt) = (Vector::filled(k, 7.0), Matrix::filled(m, m, 7.0), Matrix::filled(n, n, 7.0));
    t.op();
    mat_svd(&mut s, &mut u, &mut vt, &mut a.clone())?;
    for i in 0..k {
        ensure!(s[i] >= 0.0 && (i == 0 || s[i] <= s[i - 1]), "mat_svd: singular values {:?}", s.as_data());
    }
    ensure!(mul_err(&u.transposed(), &u, &delta) <= TOL, "mat_svd: U is not orthogonal");
    ensure!(mul_err(&vt, &vt.transposed(), &delta) <= TOL, "mat_svd: V is not orthogonal");
    let us = Matrix::initialized(m, n, |i, j| if j < k { u.get(i, j) * s[j] } else { 0.0 });
    let e = mul_err(&us, &vt, &|i, j| a.get(i, j));
    ensure!(e <= TOL * scale, "mat_svd: reconstruction error {}", e);
    // pseudo-inverse: Moore-Penrose conditions
    let mut p = Matrix::filled(n, m, 7.0);
    t.op();
    mat_pseudo_inverse(&mut p, &mut a.clone())?;
    let ps = amax(&p);
    let ap = Matrix::initialized(m, m, |i, j| (0..n).map(|q| a.get(i, q) * p.get(q, j)).sum());
    let pa = Matrix::initialized(n, n, |i, j| (0..m).map(|q| p.get(i, q) * a.get(q, j)).sum());
    let tol = 1e-9 * scale * ps;
    ensure!(mul_err(&ap, &a, &|i, j| a.get(i, j)) <= tol * scale, "pseudo-inverse: A P A != A");
    ensure!(mul_err(&pa, &p, &|i, j| p.get(i, j)) <= tol * ps, "pseudo-inverse: P A P != P");
    for i in 0..m {
        for j in 0..m {
            ensure!(near(ap.get(i, j), ap.get(j, i), tol), "pseudo-inverse: A P is not symmetric");
        }
    }
    for i in 0..n {
        for j in 0..n {
            ensure!(near(pa.get(i, j), pa.get(j, i), tol), "pseudo-inverse: P A is not symmetric");
        }
    }
    // pseudo-inverse entries of an integer matrix are bounded by products of minors; a runaway means a wrong rank decision
    ensure!(ps < 1e8, "pseudo-inverse: entries up to {}", ps);
    Ok(())
}

fn check_gen_eigen(t: &mut Trace, ai: &[Vec<i64>], bi: &[Vec<i64>]) -> Outcome {
    let n = ai.len();
    let (a, b) = (to_mat(ai), to_mat(bi));
    let scale = amax(&a).max(amax(&b)) * n as f64;
    let new = || Vector::filled(n, 7.0);
    let newm = || Matrix::filled(n, n, 7.0);
    let unpack = |v: &Matrix, im: &Vector| -> ComplexMatrix {
        let mut z = ComplexMatrix::new(n, n);
        let mut j = 0;
        while j < n {
            if im[j] != 0.0 && j + 1 < n {
                for i in 0..n {
                    z.set(i, j, cpx!(v.get(i, j), v.get(i, j + 1)));
                    z.set(i, j + 1, cpx!(v.get(i, j), -v.get(i, j + 1)));
                }
                j += 2;
            } else {
                for i in 0..n {
                    z.set(i, j, cpx!(v.get(i, j), 0.0));
                }
                j += 1;
            }
        }
        z
    };
    let right = |name: &str, ar: &Vector, aim: &Vector, be: &Vector, v: &ComplexMatrix| -> Outcome {
        for j in 0..n {
            let big = (0..n).map(|i| v.get(i, j).re.abs() + v.get(i, j).im.abs()).fold(0.0, f64::max);
            ensure!((big - 1.0).abs() < 1e-8, "{}: eigenvector {} not normalised ({})", name, j, big);
            for i in 0..n {
                let mut s = cpx!(0.0, 0.0);
                for k in 0..n {
                    s = s + (be[j] * a.get(i, k) - cpx!(ar[j], aim[j]) * b.get(i, k)) * v.get(k, j);
                }
                ensure!(s.norm() <= TOL * scale * scale, "{}: beta A v - alpha B v = {} (pair {})", name, s.norm(), j);
            }
        }
        Ok(())
    };
    let (mut ar, mut aim, mut be, mut v) = (new(), new(), new(), newm());
    t.op();
    mat_gen_eigen(&mut ar, &mut aim, &mut be, &mut v, &mut a.clone(), &mut b.clone())?;
    right("mat_gen_eigen", &ar, &aim, &be, &unpack(&v, &aim))?;
    // product of (s beta - alpha) equals c det(s B - A): zeros compared through ratios of two shifts
    let dets: Vec<f64> = [3, -2]
        .iter()
        .map(|&s| {
            let m: Vec<Vec<i64>> = (0..n).map(|i| (0..n).map(|j| s * bi[i][j] - ai[i][j]).collect()).collect();
            det_int(&m) as f64
        })
        .collect();
    let prods: Vec<f64> = [3.0, -2.0]
        .iter()
        .map(|s| (0..n).map(|j| cpx!(s * be[j] - ar[j], -aim[j])).fold(cpx!(1.0, 0.0), |p, z| p * z).re)
        .collect();
    ensure!(
        (dets[0] * prods[1] - dets[1] * prods[0]).abs() <= 1e-8 * scale.powi(2 * n as i32) * 25.0,
        "mat_gen_eigen: characteristic polynomial mismatch {:?} {:?}",
        dets,
        prods
    );
    let (mut ar, mut aim, mut be, mut u, mut v) = (new(), new(), new(), newm(), newm());
    t.op();
    mat_gen_eigen_lr(&mut ar, &mut aim, &mut be, &mut u, &mut v, &mut a.clone(), &mut b.clone())?;
    right("mat_gen_eigen_lr", &ar, &aim, &be, &unpack(&v, &aim))?;
    let uc = unpack(&u, &aim);
    for j in 0..n {
        for k in 0..n {
            let mut s = cpx!(0.0, 0.0);
            for i in 0..n {
                s = s + uc.get(i, j).conj() * (be[j] * a.get(i, k) - cpx!(ar[j], aim[j]) * b.get(i, k));
            }
            ensure!(s.norm() <= TOL * scale * scale, "mat_gen_eigen_lr: left residual {}", s.norm());
        }
    }
    // complex version on the same pair
    let (ac, bc) = (to_c(&a), to_c(&b));
    complex_gen(t, &ac, &bc)
}

fn complex_gen(t: &mut Trace, ac: &ComplexMatrix, bc: &ComplexMatrix) -> Outcome {
    let n = ac.nrow();
    let scale = camax(ac).max(camax(bc)) * n as f64;
    let newv = || ComplexVector::filled(n, cpx!(7.0, 7.0));
    let newm = || ComplexMatrix::filled(n, n, cpx!(7.0, 7.0));
    let right = |al: &ComplexVector, be: &ComplexVector, v: &ComplexMatrix| -> Outcome {
        for j in 0..n {
            let big = (0..n).map(|i| v.get(i, j).re.abs() + v.get(i, j).im.abs()).fold(0.0, f64::max);
            ensure!((big - 1.0).abs() < 1e-8, "complex gen: eigenvector {} not normalised ({})", j, big);
            for i in 0..n {
                let s: Complex64 = (0..n).map(|k| (be[j] * ac.get(i, k) - al[j] * bc.get(i, k)) * v.get(k, j)).sum();
                ensure!(s.norm() <= TOL * scale * scale, "complex gen: right residual {}", s.norm());
            }
        }
        Ok(())
    };
    let (mut al, mut be, mut v) = (newv(), newv(), newm());
    t.op();
    complex_mat_gen_eigen(&mut al, &mut be, &mut v, &mut ac.clone(), &mut bc.clone())?;
    right(&al, &be, &v)?;
    let (mut al, mut be, mut u, mut v) = (newv(), newv(), newm(), newm());
    t.op();
    complex_mat_gen_eigen_lr(&mut al, &mut be, &mut u, &mut v, &mut ac.clone(), &mut bc.clone())?;
    right(&al, &be, &v)?;
    for j in 0..n {
        for k in 0..n {
            let s: Complex64 = (0..n).map(|i| u.get(i, j).conj() * (be[j] * ac.get(i, k) - al[j] * bc.get(i, k))).sum();
            ensure!(s.norm() <= TOL * scale * scale, "complex gen: left residual {}", s.norm());
        }
    }
    Ok(())
}

/// Exact determinant of a Gaussian-integer matrix by expansion (n <= 4)
fn cdet(a: &[Vec<(i64, i64)>]) -> (i64, i64) {
    let n = a.len();
    if n == 1 {
        return a[0][0];
    }
    let mut s = (0, 0);
    for j in 0..n {
        let sub: Vec<Vec<(i64, i64)>> = (1..n).map(|i| (0..n).filter(|&k| k != j).map(|k| a[i][k]).collect()).collect();
        let d = cdet(&sub);
        let p = (a[0][j].0 * d.0 - a[0][j].1 * d.1, a[0][j].0 * d.1 + a[0][j].1 * d.0);
        if j % 2 == 0 {
            s = (s.0 + p.0, s.1 + p.1);
        } else {
            s = (s.0 - p.0, s.1 - p.1);
        }
    }
    s
}

fn check_complex(t: &mut Trace, ai: &[Vec<(i64, i64)>], singular_must_fail: bool, spectral: bool, with_det: bool) -> Outcome {
    let n = ai.len();
    let a = to_cmat(ai);
    let scale = camax(&a) * n as f64;
    let d = if with_det { cdet(ai) } else { (1, 0) };
    let det = cpx!(d.0 as f64, d.1 as f64);
    let nonsing = d != (0, 0);
    let zero_line = (0..n).any(|r| ai[r].iter().all(|&x| x == (0, 0))) || (0..n).any(|k| (0..n).all(|r| ai[r][k] == (0, 0)));
    let mut inv = ComplexMatrix::filled(n, n, cpx!(7.0, 7.0));
    t.op();
    match complex_mat_inverse(&mut inv, &a) {
        Ok(dd) => {
            ensure!(nonsing || !singular_must_fail, "complex inverse: singular accepted");
            if nonsing {
                if with_det {
                    ensure!((dd - det).norm() <= TOL * det.norm(), "complex inverse: det {:?} instead of {:?}", dd, det);
                }
                let e = cmul_err(&a, &inv, &|i, j| cpx!(delta(i, j), 0.0));
                ensure!(e <= TOL * scale * camax(&inv), "complex inverse: error {}", e);
            }
        }
        Err(e) => ensure!(!nonsing, "complex inverse refused: {}", e),
    }
    ensure!(a.as_data() == to_cmat(ai).as_data(), "complex inverse modified its input");
    let b = ComplexVector::initialized(n, |i| cpx!(i as f64 + 1.0, 2.0 - i as f64));
    let mut x = b.clone();
    t.op();
    match complex_solve_lin_sys(&mut x, &mut a.clone()) {
        Ok(()) => {
            ensure!(!zero_line, "complex solve: singular accepted");
            if nonsing {
                let xs = x.as_data().iter().fold(1.0, |m: f64, v| m.max(v.norm()));
                for i in 0..n {
                    let r: Complex64 = (0..n).map(|j| a.get(i, j) * x[j]).sum::<Complex64>() - b[i];
                    ensure!(r.norm() <= TOL * scale * xs, "complex solve: residual {}", r.norm());
                }
            }
        }
        Err(e) => ensure!(!nonsing, "complex solve refused: {}", e),
    }
    if spectral {
        let newv = || ComplexVector::filled(n, cpx!(7.0, 7.0));
        let newm = || ComplexMatrix::filled(n, n, cpx!(7.0, 7.0));
        let tr: Complex64 = (0..n).map(|i| a.get(i, i)).sum();
        let tr2: Complex64 = (0..n).map(|i| (0..n).map(|k| a.get(i, k) * a.get(k, i)).sum::<Complex64>()).sum();
        let right = |l: &ComplexVector, v: &ComplexMatrix| -> Outcome {
            let e = cmul_err(&a, v, &|i, j| v.get(i, j) * l[j]);
            ensure!(e <= TOL * scale, "complex eigen: residual {}", e);
            for j in 0..n {
                let norm: f64 = (0..n).map(|i| v.get(i, j).norm_sqr()).sum::<f64>().sqrt();
                ensure!((norm - 1.0).abs() < 1e-8, "complex eigenvector {} has norm {}", j, norm);
            }
            let s: Complex64 = (0..n).map(|j| l[j]).sum();
            ensure!((s - tr).norm() <= 1e-9 * scale, "complex eigen: trace {:?} instead of {:?}", s, tr);
            let s: Complex64 = (0..n).map(|j| l[j] * l[j]).sum();
            ensure!((s - tr2).norm() <= 1e-9 * scale * scale, "complex eigen: trace of square {:?} instead of {:?}", s, tr2);
            Ok(())
        };
        let (mut l, mut v) = (newv(), newm());
        t.op();
        complex_mat_eigen(&mut l, &mut v, &mut a.clone())?;
        right(&l, &v)?;
        let (mut l, mut u, mut v) = (newv(), newm(), newm());
        t.op();
        complex_mat_eigen_lr(&mut l, &mut u, &mut v, &mut a.clone())?;
        right(&l, &v)?;
        let uh = ct(&u);
        let e = cmul_err(&uh, &a, &|i, j| uh.get(i, j) * l[i]);
        ensure!(e <= TOL * scale, "complex eigen: left residual {}", e);
        // svd
        let (mut s, mut u, mut vh) = (Vector::filled(n, 7.0), newm(), newm());
        t.op();
        complex_mat_svd(&mut s, &mut u, &mut vh, &mut a.clone())?;
        csvd(&a, &s, &u, &vh)?;
        // hermitian part: H = A + A^H
        let h = ComplexMatrix::initialized(n, n, |i, j| a.get(i, j) + a.get(j, i).conj());
        // positive definite: A A^H + I
        let ah = ct(&a);
        let spd = ComplexMatrix::initialized(n, n, |i, j| (0..n).map(|k| a.get(i, k) * ah.get(k, j)).sum::<Complex64>() + delta(i, j));
        for upper in [false, true] {
            let out = |i: usize, j: usize| (upper && i > j) || (!upper && i < j);
            let junk = cpx!(777.0, -3.0);
            let mut m = ComplexMatrix::initialized(n, n, |i, j| if out(i, j) { junk } else { h.get(i, j) });
            let mut l = Vector::filled(n, 7.0);
            t.op();
            complex_mat_eigen_herm(&mut l, &mut m, upper)?;
            let e = cmul_err(&ct(&m), &m, &|i, j| cpx!(delta(i, j), 0.0));
            ensure!(e <= TOL, "hermitian eigen: not unitary {}", e);
            let e = cmul_err(&h, &m, &|i, j| m.get(i, j) * l[j]);
            ensure!(e <= TOL * scale, "hermitian eigen: residual {}", e);
            for i in 1..n {
                ensure!(l[i - 1] <= l[i], "hermitian eigen: not ascending");
            }
            let mut m = ComplexMatrix::initialized(n, n, |i, j| if out(i, j) { junk } else { spd.get(i, j) });
            t.op();
            complex_mat_cholesky(&mut m, upper)?;
            let f = ComplexMatrix::initialized(n, n, |i, j| if out(i, j) { cpx!(0.0, 0.0) } else { m.get(i, j) });
            let fh = ct(&f);
            let e = if upper { cmul_err(&fh, &f, &|i, j| spd.get(i, j)) } else { cmul_err(&f, &fh, &|i, j| spd.get(i, j)) };
            ensure!(e <= TOL * scale * scale, "complex cholesky: error {}", e);
            for i in 0..n {
                for j in 0..n {
                    ensure!(!out(i, j) || m.get(i, j) == junk, "complex cholesky changed the other triangle");
                }
            }
            // certainly not positive definite: -(A A^H + I)
            let mut m = ComplexMatrix::initialized(n, n, |i, j| -spd.get(i, j));
            ensure!(complex_mat_cholesky(&mut m, upper).is_err(), "complex cholesky accepted a negative definite matrix");
        }
    }
    Ok(())
}

fn csvd(a: &ComplexMatrix, s: &Vector, u: &ComplexMatrix, vh: &ComplexMatrix) -> Outcome {
    let (m, n) = a.dims();
    let k = m.min(n);
    for i in 0..k {
        ensure!(s[i] >= 0.0 && (i == 0 || s[i] <= s[i - 1]), "complex svd: singular values {:?}", s.as_data());
    }
    ensure!(cmul_err(&ct(u), u, &|i, j| cpx!(delta(i, j), 0.0)) <= TOL, "complex svd: U is not unitary");
    ensure!(cmul_err(vh, &ct(vh), &|i, j| cpx!(delta(i, j), 0.0)) <= TOL, "complex svd: V is not unitary");
    let us = ComplexMatrix::initialized(m, n, |i, j| if j < k { u.get(i, j) * s[j] } else { cpx!(0.0, 0.0) });
    let e = cmul_err(&us, vh, &|i, j| a.get(i, j));
    ensure!(e <= TOL * camax(a) * (m + n) as f64, "complex svd: reconstruction error {}", e);
    Ok(())
}

fn mat_from_digits(idx: usize, r: usize, c: usize, vals: &[i64]) -> Vec<Vec<i64>> {
    let d = digits(idx, vals.len(), r * c);
    (0..r).map(|i| (0..c).map(|j| vals[d[i * c + j]]).collect()).collect()
}

/// Structured families of order n
fn structured(n: usize) -> Vec<(String, Vec<Vec<i64>>)> {
    let mut out = Vec::new();
    let mut add = |name: String, f: &dyn Fn(usize, usize) -> i64| {
        out.push((name, (0..n).map(|i| (0..n).map(|j| f(i, j)).collect()).collect()));
    };
    let h = |i: usize, j: usize, s: usize| -> i64 { super::l01::ival(900 + s, i, j) % 6 };
    add("identity".into(), &|i, j| (i == j) as i64);
    add("tridiagonal".into(), &|i, j| if i == j { 2 } else if i + 1 == j || j + 1 == i { -1 } else { 0 });
    add("min".into(), &|i, j| i.min(j) as i64 + 1);
    add("upper".into(), &|i, j| if i <= j { 1 } else { 0 });
    add("lower".into(), &|i, j| if i >= j { (1 + j) as i64 } else { 0 });
    add("companion".into(), &|i, j| if i == 0 { [1, -2, 3, -1, 2, 1, -3, 1, 2, -1, 1, 1][j % 12] } else { (i == j + 1) as i64 });
    add("jordan".into(), &|i, j| if i == j { 2 } else { (i + 1 == j) as i64 });
    add("skew".into(), &|i, j| if i == j { 1 } else if i < j { 2 } else { -2 });
    add("ones+diag".into(), &|i, j| 1 + if i == j { 3 } else { 0 });
    add("ones".into(), &|_, _| 1);
    add("rank2".into(), &|i, j| (i as i64 + 1) * 2 - (j as i64 % 3) * (i as i64 % 2));
    add("checkerboard".into(), &|i, j| ((i + j) % 2) as i64);
    add("distance".into(), &|i, j| (i as i64 - j as i64).abs());
    add("hankel".into(), &|i, j| if i + j < n { (i + j + 1) as i64 } else { 0 });
    for s in 0..n {
        add(format!("shift{}", s), &|i, j| ((i + s) % n == j) as i64);
        add(format!("circulant{}", s), &|i, j| [3, 1, 0, -1, 0, 2, 0, 0, 1, 0, 0, 1][(i + n - j + s) % n % 12]);
        add(format!("zero-row{}", s), &|i, j| if i == s { 0 } else { h(i, j, 1) });
        add(format!("zero-col{}", s), &|i, j| if j == s { 0 } else { h(i, j, 1) });
        add(format!("zero-pivot{}", s), &|i, j| if i == j && i <= s { 0 } else { h(i, j, 2) });
        add(format!("reflect{}", s), &|i, j| if i + j == n - 1 { s as i64 + 1 } else if i == j { -1 } else { 0 });
    }
    for s in 0..24 {
        add(format!("full{}", s), &|i, j| h(i, j, 10 + s));
        add(format!("sym{}", s), &|i, j| h(i.min(j), i.max(j), 40 + s));
        add(format!("dd{}", s), &|i, j| h(i, j, 70 + s) + if i == j { 5 * n as i64 } else { 0 });
        add(format!("spd{}", s), &|i, j| (0..n).map(|k| h(i, k, 90 + s) * h(j, k, 90 + s)).sum::<i64>() + (i == j) as i64);
        add(format!("blockdiag{}", s), &|i, j| if i / 2 == j / 2 { h(i, j, 120 + s) } else { 0 });
    }
    out
}

fn symmetric(a: &[Vec<i64>]) -> bool {
    let n = a.len();
    (0..n).all(|i| (0..n).all(|j| a[i][j] == a[j][i]))
}

pub fn explore(run: &mut Run) {
    run.level(
        "exploration",
        "every matrix of the families: all integer matrices of order 1..4 with entries from a small set, all rectangular shapes up to 3x3 likewise, all symmetric ones, all pairs for the generalized problem, Gaussian-integer matrices, and structured families up to order 12; trivial cases: none",
    );
    run.assume("identities are verified with tolerance 1e-10 times the scale of the operands; singularity of the integer matrices is decided exactly by Bareiss elimination");
    run.assume("for order >= 4 a singular matrix must be refused only if a row or column is zero (LU pivots of other singular matrices need not be exactly zero)");
    // all small square matrices
    let v5: Vec<i64> = vec![-2, -1, 0, 1, 2];
    let v3: Vec<i64> = vec![-1, 0, 1];
    let v7: Vec<i64> = vec![-3, -2, -1, 0, 1, 2, 3];
    run.section("order1", 7, |ctx, i| {
        let a = vec![vec![v7[i]]];
        ctx.case(show(&a), |t| {
            check_square(t, &a, true)?;
            check_small::<1>(t, &a, true)?;
            check_small::<3>(t, &a, true)?;
            check_general_eigen(t, &a)?;
            check_symmetric(t, &a)?;
            check_svd(t, &a)
        });
    });
    run.section("order2", pow(7, 4), |ctx, i| {
        let a = mat_from_digits(i, 2, 2, &v7);
        ctx.case(show(&a), |t| {
            check_square(t, &a, true)?;
            check_small::<2>(t, &a, true)?;
            check_small::<3>(t, &a, true)?;
            check_general_eigen(t, &a)?;
            check_svd(t, &a)?;
            if symmetric(&a) {
                check_symmetric(t, &a)?;
            }
            Ok(())
        });
    });
    let vals = if run.thorough() { v5.clone() } else { v3.clone() };
    let nn = pow(vals.len(), 9);
    let chunk = 243;
    run.section("order3", (nn + chunk - 1) / chunk, |ctx, c| {
        for i in c * chunk..usize::min(nn, (c + 1) * chunk) {
            let a = mat_from_digits(i, 3, 3, &vals);
            ctx.case(show(&a), |t| {
                check_square(t, &a, true)?;
                check_small::<3>(t, &a, true)?;
                check_small::<4>(t, &a, true)?;
                check_general_eigen(t, &a)?;
                check_svd(t, &a)
            });
        }
    });
    // symmetric order 3 with larger range, order 4 with 0,1,-1 (off) and 0..2 (diagonal)
    let vs: Vec<i64> = if run.thorough() { vec![-3, -2, -1, 0, 1, 2, 3, 4] } else { vec![-2, -1, 0, 1, 2, 3] };
    let nb = vs.len();
    run.section("symmetric3", pow(nb, 3), |ctx, c| {
        let d = digits(c, nb, 3);
        for i in 0..pow(nb, 3) {
            let o = digits(i, nb, 3);
            let a = vec![
                vec![vs[d[0]], vs[o[0]], vs[o[1]]],
                vec![vs[o[0]], vs[d[1]], vs[o[2]]],
                vec![vs[o[1]], vs[o[2]], vs[d[2]]],
            ];
            ctx.case(show(&a), |t| check_symmetric(t, &a));
        }
    });
    run.section("symmetric4", pow(3, 4), |ctx, c| {
        let d = digits(c, 3, 4);
        for i in 0..pow(3, 6) {
            let o: Vec<i64> = digits(i, 3, 6).iter().map(|&x| x as i64 - 1).collect();
            let g = |k: usize| d[k] as i64 + 1;
            let a = vec![
                vec![g(0), o[0], o[1], o[2]],
                vec![o[0], g(1), o[3], o[4]],
                vec![o[1], o[3], g(2), o[5]],
                vec![o[2], o[4], o[5], g(3)],
            ];
            ctx.case(show(&a), |t| check_symmetric(t, &a));
        }
    });
    run.section("order4", 256, |ctx, c| {
        for i in 0..256 {
            let a = mat_from_digits(c * 256 + i, 4, 4, &[0, 1]);
            let zero = (0..4).any(|r| a[r].iter().all(|&x| x == 0)) || (0..4).any(|k| (0..4).all(|r| a[r][k] == 0));
            ctx.case(show(&a), |t| {
                check_square(t, &a, zero)?;
                check_small::<4>(t, &a, zero)?;
                check_small::<5>(t, &a, zero)?;
                check_general_eigen(t, &a)
            });
        }
    });
    // rectangular
    let shapes = [(1, 2), (2, 1), (1, 3), (3, 1), (2, 3), (3, 2), (1, 5), (5, 1), (2, 4), (4, 2)];
    run.section("rectangular", shapes.len() * 32, |ctx, w| {
        let (r, c) = shapes[w / 32];
        let vals: &[i64] = if r * c <= 6 { &v5 } else { &v3 };
        let total = pow(vals.len(), r * c);
        let mut i = w % 32;
        while i < total {
            let a = mat_from_digits(i, r, c, vals);
            ctx.case(show(&a), |t| check_svd(t, &a));
            i += 32;
        }
    });
    // structured families
    let nmax = run.pick(9, 11);
    run.section("structured", nmax, |ctx, k| {
        let n = k + 1;
        for (name, a) in structured(n) {
            ctx.case(format!("n={} {}", n, name), |t| {
                let zero = (0..n).any(|r| a[r].iter().all(|&x| x == 0)) || (0..n).any(|k| (0..n).all(|r| a[r][k] == 0));
                check_square(t, &a, zero || n <= 3)?;
                match n {
                    1 => check_small::<1>(t, &a, true)?,
                    2 => check_small::<2>(t, &a, true)?,
                    3 => check_small::<3>(t, &a, true)?,
                    4 => check_small::<4>(t, &a, zero)?,
                    5 => check_small::<5>(t, &a, zero)?,
                    6 => check_small::<6>(t, &a, zero)?,
                    7 => check_small::<9>(t, &a, zero)?,
                    8 => check_small::<9>(t, &a, zero)?,
                    9 => check_small::<9>(t, &a, zero)?,
                    _ => (),
                }
                check_general_eigen(t, &a)?;
                check_svd(t, &a)?;
                if symmetric(&a) {
                    check_symmetric(t, &a)?;
                }
                Ok(())
            });
        }
        // rectangular structured
        for m in 1..=nmax {
            for s in 0..6 {
                let a: Vec<Vec<i64>> = (0..n).map(|i| (0..m).map(|j| if s % 2 == 0 { super::l01::ival(500 + s, i, j) % 7 } else { (i as i64 + 1) * (j as i64 % 3 + s as i64) }).collect()).collect();
                ctx.case(format!("{}x{} s{}", n, m, s), |t| check_svd(t, &a));
            }
        }
    });
    // scaled matrices: the identities are scale invariant
    run.section("scaled", 6, |ctx, k| {
        let n = k + 1;
        for (name, a) in structured(n) {
            if det_int(&a) == 0 || !(name.starts_with("dd") || name.starts_with("spd") || name == "tridiagonal") {
                continue;
            }
            for e in [-9, -6, -3, 3, 6, 9] {
                ctx.case(format!("n={} {} 1e{}", n, name, e), |t| {
                    let f = 10f64.powi(e);
                    let m = Matrix::initialized(n, n, |i, j| a[i][j] as f64 * f);
                    t.ops(4);
                    let mut x = Vector::initialized(n, |i| (0..n).map(|j| m.get(i, j) * (j as f64 + 1.0)).sum());
                    solve_lin_sys(&mut x, &mut m.clone())?;
                    for i in 0..n {
                        ensure!(near(x[i], i as f64 + 1.0, 1e-7), "solution {} is {}", i, x[i]);
                    }
                    // an error is acceptable only below the documented determinant threshold
                    let det = det_int(&a) as f64 * f.powi(n as i32);
                    let mut inv = Matrix::new(n, n);
                    match mat_inverse(&mut inv, &m) {
                        Ok(d) => {
                            ensure!(rel(d, det, 1e-8), "determinant {} instead of {}", d, det);
                            let er = mul_err(&m, &inv, &delta);
                            ensure!(er < 1e-8, "inverse error {}", er);
                        }
                        Err(e) => ensure!(n <= 3 && det.abs() <= 1e-15, "inverse refused: {}", e),
                    }
                    let (mut s, mut u, mut vt) = (Vector::new(n), Matrix::new(n, n), Matrix::new(n, n));
                    mat_svd(&mut s, &mut u, &mut vt, &mut m.clone())?;
                    let us = Matrix::initialized(n, n, |i, j| u.get(i, j) * s[j]);
                    let er = mul_err(&us, &vt, &|i, j| m.get(i, j));
                    ensure!(er <= 1e-10 * f * 1e4, "svd error {}", er);
                    if symmetric(&a) {
                        let (mut l, mut v) = (Vector::new(n), Matrix::new(n, n));
                        mat_eigen_sym_jacobi(&mut l, &mut v, &mut m.clone())?;
                        let er = mul_err(&m, &v, &|i, j| v.get(i, j) * l[j]);
                        ensure!(er <= 1e-10 * f * 1e4, "jacobi error {}", er);
                        ensure!(mul_err(&v.transposed(), &v, &delta) <= TOL, "jacobi: not orthogonal");
                        let mut l = Vector::new(n);
                        let mut v = m.clone();
                        mat_eigen_sym(&mut l, &mut v, false)?;
                        let er = mul_err(&m, &v, &|i, j| v.get(i, j) * l[j]);
                        ensure!(er <= 1e-10 * f * 1e4, "eigen_sym error {}", er);
                    }
                    Ok(())
                });
            }
        }
    });
    // powers of two over a wide range: decompositions without a documented absolute threshold, also of singular and
    // rectangular matrices
    run.section("power-of-two scales", 6, |ctx, k| {
        let n = k + 1;
        let mut list: Vec<(String, Vec<Vec<i64>>)> = structured(n).into_iter().map(|(s, a)| (s.to_string(), a)).collect();
        for m in 1..=6 {
            for s in 0..2i64 {
                list.push((format!("rectangular {m} {s}"), (0..n as i64).map(|i| (0..m).map(|j| if s == 0 { (i * 5 + j * j * 3) % 7 - 2 } else { (i + 1) * (j % 3 + 1) }).collect()).collect()));
            }
        }
        for (name, a) in list {
            for e in [-300, -200, -100, -60, -45, -30, 30, 60, 100, 200, 300] {
                ctx.case(format!("n={} {} 2^{}", n, name, e), |t| {
                    let f = 2f64.powi(e);
                    let (rows, cols) = (a.len(), a[0].len());
                    let base = to_mat(&a);
                    let m = Matrix::initialized(rows, cols, |i, j| a[i][j] as f64 * f);
                    let mn = rows.min(cols);
                    let svd = |m: &Matrix| -> Result<(Vector, Matrix, Matrix, Matrix), String> {
                        let (mut s, mut u, mut vt) = (Vector::new(mn), Matrix::new(rows, rows), Matrix::new(cols, cols));
                        mat_svd(&mut s, &mut u, &mut vt, &mut m.clone())?;
                        let mut p = Matrix::new(cols, rows);
                        mat_pseudo_inverse(&mut p, &mut m.clone())?;
                        Ok((s, u, vt, p))
                    };
                    t.ops(4);
                    let (s, u, vt, p) = svd(&m)?;
                    let (s1, _, _, p1) = svd(&base)?;
                    let big = amax(&base) * (rows + cols) as f64;
                    for i in 0..mn {
                        ensure!((s[i] / f - s1[i]).abs() <= TOL * big, "singular value {} is {} times the scale instead of {}", i, s[i] / f, s1[i]);
                    }
                    ensure!(mul_err(&u.transposed(), &u, &delta) <= TOL && mul_err(&vt, &vt.transposed(), &delta) <= TOL, "mat_svd: not orthogonal");
                    let ps = amax(&p1).max(1e-300);
                    for i in 0..cols {
                        for j in 0..rows {
                            let (x, y) = (p.get(i, j) * f, p1.get(i, j));
                            ensure!((x - y).abs() <= 1e-8 * ps * (1.0 + big * ps), "pseudo-inverse {},{} is {} over the scale instead of {}", i, j, x, y);
                        }
                    }
                    if rows == cols && e.abs() <= 200 {
                        let (mut lr, mut li, mut v) = (Vector::new(n), Vector::new(n), Matrix::new(n, n));
                        let mut vi = Matrix::new(n, n);
                        mat_eigen(&mut lr, &mut li, &mut v, &mut vi, &mut m.clone())?;
                        // A (vr + i vi) = (lr + i li) (vr + i vi)
                        for j in 0..n {
                            for i in 0..n {
                                let (mut re, mut im) = (0.0, 0.0);
                                for q in 0..n {
                                    re += a[i][q] as f64 * v.get(q, j);
                                    im += a[i][q] as f64 * vi.get(q, j);
                                }
                                let (x, y) = (lr[j] / f, li[j] / f);
                                ensure!((re - (x * v.get(i, j) - y * vi.get(i, j))).abs() <= TOL * big * 10.0, "mat_eigen: real part {},{}", i, j);
                                ensure!((im - (x * vi.get(i, j) + y * v.get(i, j))).abs() <= TOL * big * 10.0, "mat_eigen: imaginary part {},{}", i, j);
                            }
                        }
                        if symmetric(&a) {
                            let mut l = Vector::new(n);
                            let mut v = m.clone();
                            mat_eigen_sym(&mut l, &mut v, false)?;
                            let er = mul_err(&base, &v, &|i, j| v.get(i, j) * (l[j] / f));
                            ensure!(er <= TOL * big, "eigen_sym error {}", er);
                            let (mut l, mut v) = (Vector::new(n), Matrix::new(n, n));
                            mat_eigen_sym_jacobi(&mut l, &mut v, &mut m.clone())?;
                            let er = mul_err(&base, &v, &|i, j| v.get(i, j) * (l[j] / f));
                            ensure!(er <= TOL * big, "jacobi error {} times the scale", er);
                            ensure!(mul_err(&v.transposed(), &v, &delta) <= TOL, "jacobi: not orthogonal");
                            let (mut c, mut c1) = (m.clone(), base.clone());
                            let (r, r1) = (mat_cholesky(&mut c, false), mat_cholesky(&mut c1, false));
                            ensure!(det_int(&a) == 0 || r.is_ok() == r1.is_ok(), "cholesky: {:?}, without scale {:?}", r, r1);
                            if r.is_ok() && det_int(&a) != 0 && e % 2 == 0 {
                                let g = 2f64.powi(e / 2);
                                for i in 0..n {
                                    for j in 0..=i {
                                        ensure!((c.get(i, j) / g - c1.get(i, j)).abs() <= TOL * big, "cholesky {},{}", i, j);
                                    }
                                }
                            }
                        }
                        if det_int(&a) != 0 {
                            let mut x = Vector::initialized(n, |i| (0..n).map(|j| m.get(i, j) * (j as f64 + 1.0)).sum());
                            solve_lin_sys(&mut x, &mut m.clone())?;
                            let mut y = Vector::initialized(n, |i| (0..n).map(|j| base.get(i, j) * (j as f64 + 1.0)).sum());
                            solve_lin_sys(&mut y, &mut base.clone())?;
                            for i in 0..n {
                                ensure!(near(x[i], y[i], 1e-12 * (1.0 + y[i].abs())), "solution {} is {} instead of {}", i, x[i], y[i]);
                            }
                        }
                    }
                    Ok(())
                });
            }
        }
    });
    // larger orders: matrices whose determinant or eigenvalues are known in closed form
    let mut orders: Vec<usize> = (10..=run.pick(34, 70)).collect();
    orders.extend([63, 64, 65, 99, 100, 101, 128, 129].iter().filter(|n| **n > run.pick(34, 70)));
    run.section("larger", orders.len() * 6, |ctx, w| {
        let (n, s) = (orders[w / 6], w % 6);
        // 2x2 blocks on the diagonal (the last one 1x1 if odd), a few entries above, and the rows permuted
        let block = |b: usize| -> [i64; 4] { [5 + ((b + s) % 3) as i64, if (b + s) % 2 == 0 { 1 } else { -2 }, ((b * 2 + s) % 4) as i64 - 1, 6 - ((b + 2 * s) % 4) as i64] };
        let entry = |i: usize, j: usize| -> i64 {
            if i / 2 == j / 2 {
                block(i / 2)[(i % 2) * 2 + j % 2]
            } else if j > i && (j - i) % 7 == 2 + s % 3 {
                ((i + j * 2 + s) % 3) as i64 - 1
            } else {
                0
            }
        };
        let perm: Vec<usize> = match s % 3 {
            0 => (0..n).collect(),
            1 => (0..n).rev().collect(),
            _ => (0..n).map(|i| (i + n / 3) % n).collect(),
        };
        let mut det = 1.0;
        for b in 0..n.div_ceil(2) {
            let p = block(b);
            det *= if 2 * b + 1 < n { (p[0] * p[3] - p[1] * p[2]) as f64 } else { p[0] as f64 };
        }
        let inversions = (0..n).map(|i| (i + 1..n).filter(|j| perm[*j] < perm[i]).count()).sum::<usize>();
        if inversions % 2 == 1 {
            det = -det;
        }
        let a = Matrix::initialized(n, n, |i, j| entry(perm[i], j) as f64);
        ctx.case(format!("general n={n} variant {s}"), |t| {
            t.ops(5);
            let x0 = Vector::initialized(n, |i| (i % 7) as f64 - 2.5);
            let mut x = Vector::initialized(n, |i| (0..n).map(|j| a.get(i, j) * x0[j]).sum());
            solve_lin_sys(&mut x, &mut a.clone())?;
            for i in 0..n {
                ensure!(near(x[i], x0[i], 1e-8), "solution {} is {} instead of {}", i, x[i], x0[i]);
            }
            let mut inv = Matrix::filled(n, n, 7.0);
            let d = mat_inverse(&mut inv, &a)?;
            ensure!(rel(d, det, 1e-9), "determinant {} instead of {}", d, det);
            let big = 1.0 + amax(&inv);
            ensure!(mul_err(&a, &inv, &delta) <= 1e-9 * big, "A times its inverse is not the identity");
            let (mut sv, mut u, mut vt) = (Vector::new(n), Matrix::new(n, n), Matrix::new(n, n));
            mat_svd(&mut sv, &mut u, &mut vt, &mut a.clone())?;
            ensure!((1..n).all(|i| sv[i] <= sv[i - 1]) && sv[n - 1] >= 0.0, "singular values are not in descending order");
            ensure!(mul_err(&u.transposed(), &u, &delta) <= TOL && mul_err(&vt, &vt.transposed(), &delta) <= TOL, "mat_svd: not orthogonal");
            let us = Matrix::initialized(n, n, |i, j| u.get(i, j) * sv[j]);
            ensure!(mul_err(&us, &vt, &|i, j| a.get(i, j)) <= 1e-10 * n as f64, "mat_svd: reconstruction");
            let mut p = Matrix::filled(n, n, 7.0);
            mat_pseudo_inverse(&mut p, &mut a.clone())?;
            ensure!(mul_err(&a, &p, &delta) <= 1e-8 * big, "A times its pseudo-inverse is not the identity");
            let (mut lr, mut li, mut vr, mut vi) = (Vector::new(n), Vector::new(n), Matrix::new(n, n), Matrix::new(n, n));
            mat_eigen(&mut lr, &mut li, &mut vr, &mut vi, &mut a.clone())?;
            for j in 0..n {
                let mut len = 0.0;
                for i in 0..n {
                    let (mut re, mut im) = (0.0, 0.0);
                    for q in 0..n {
                        re += a.get(i, q) * vr.get(q, j);
                        im += a.get(i, q) * vi.get(q, j);
                    }
                    len += vr.get(i, j).powi(2) + vi.get(i, j).powi(2);
                    ensure!((re - (lr[j] * vr.get(i, j) - li[j] * vi.get(i, j))).abs() <= 1e-9, "mat_eigen: real part {},{}", i, j);
                    ensure!((im - (lr[j] * vi.get(i, j) + li[j] * vr.get(i, j))).abs() <= 1e-9, "mat_eigen: imaginary part {},{}", i, j);
                }
                ensure!(len > 0.5, "mat_eigen: vector {} vanishes", j);
            }
            let (tr, sum) = ((0..n).map(|i| a.get(i, i)).sum::<f64>(), (0..n).map(|i| lr[i]).sum::<f64>());
            ensure!(near(tr, sum, 1e-8 * n as f64), "mat_eigen: the eigenvalues add up to {} instead of {}", sum, tr);
            Ok(())
        });
        ctx.case(format!("complex n={n} variant {s}"), |t| {
            t.ops(3);
            let z = ComplexMatrix::initialized(n, n, |i, j| cpx!(entry(perm[i], j) as f64, (((i + 2 * j + s) % 5) as f64 - 2.0) / (n as f64)));
            let x0 = ComplexVector::initialized(n, |i| cpx!((i % 7) as f64 - 2.5, (i % 3) as f64));
            let mut x = ComplexVector::initialized(n, |i| (0..n).map(|j| z.get(i, j) * x0[j]).sum());
            complex_solve_lin_sys(&mut x, &mut z.clone())?;
            let mut inv = ComplexMatrix::new(n, n);
            complex_mat_inverse(&mut inv, &z)?;
            let big = 1.0 + camax(&inv);
            for i in 0..n {
                ensure!((x[i] - x0[i]).norm() <= 1e-10 * big * n as f64, "solution {} is {} instead of {}", i, x[i], x0[i]);
            }
            ensure!(cmul_err(&z, &inv, &|i, j| cpx!(delta(i, j), 0.0)) <= 1e-10 * big * n as f64, "A times its inverse is not the identity");
            let (mut sv, mut u, mut vh) = (Vector::new(n), ComplexMatrix::new(n, n), ComplexMatrix::new(n, n));
            complex_mat_svd(&mut sv, &mut u, &mut vh, &mut z.clone())?;
            csvd(&z, &sv, &u, &vh)
        });
        // tridiagonal Toeplitz matrix: eigenvalues d + 2 |e| cos(k pi / (n + 1))
        let (d, e) = ([4.0, 2.5, -3.0, 2.0, 0.0, 7.0][s], [1.0, -1.0, 2.0, -1.0, 1.0, 3.0][s]);
        ctx.case(format!("symmetric n={n} variant {s}"), |t| {
            let m = Matrix::initialized(n, n, |i, j| if i == j { d } else if i.abs_diff(j) == 1 { e } else { 0.0 });
            let exact = |k: usize| d - 2.0 * f64::abs(e) * f64::cos((k + 1) as f64 * std::f64::consts::PI / (n + 1) as f64);
            for upper in [false, true] {
                t.ops(2);
                let tri = Matrix::initialized(n, n, |i, j| if (upper && i > j) || (!upper && i < j) { 777.0 } else { m.get(i, j) });
                let (mut l, mut v) = (Vector::new(n), tri.clone());
                mat_eigen_sym(&mut l, &mut v, upper)?;
                for k in 0..n {
                    ensure!(near(l[k], exact(k), 1e-11), "mat_eigen_sym: eigenvalue {} is {} instead of {}", k, l[k], exact(k));
                }
                ensure!(mul_err(&v.transposed(), &v, &delta) <= TOL && mul_err(&m, &v, &|i, j| v.get(i, j) * l[j]) <= 1e-10, "mat_eigen_sym: vectors");
                let mut c = tri.clone();
                let r = mat_cholesky(&mut c, upper);
                ensure!(r.is_ok() == (exact(0) > 0.0), "mat_cholesky: {:?} for the smallest eigenvalue {}", r, exact(0));
                if r.is_ok() {
                    let f = Matrix::initialized(n, n, |i, j| if (upper && i > j) || (!upper && i < j) { 0.0 } else { c.get(i, j) });
                    let ft = f.transposed();
                    let er = if upper { mul_err(&ft, &f, &|i, j| m.get(i, j)) } else { mul_err(&f, &ft, &|i, j| m.get(i, j)) };
                    ensure!(er <= 1e-11, "mat_cholesky: error {}", er);
                }
                // Hermitian with the same eigenvalues: the off-diagonal entries turned by a phase
                let (p, q) = (0.6 * e, 0.8 * e);
                let hm = ComplexMatrix::initialized(n, n, |i, j| if i == j { cpx!(d, 0.0) } else if i + 1 == j { cpx!(p, q) } else if j + 1 == i { cpx!(p, -q) } else { cpx!(0.0, 0.0) });
                let tri = ComplexMatrix::initialized(n, n, |i, j| if (upper && i > j) || (!upper && i < j) { cpx!(777.0, 7.0) } else { hm.get(i, j) });
                t.ops(2);
                let (mut l, mut v) = (Vector::new(n), tri.clone());
                complex_mat_eigen_herm(&mut l, &mut v, upper)?;
                for k in 0..n {
                    ensure!(near(l[k], exact(k), 1e-11), "complex_mat_eigen_herm: eigenvalue {} is {} instead of {}", k, l[k], exact(k));
                }
                ensure!(cmul_err(&hm, &v, &|i, j| v.get(i, j) * l[j]) <= 1e-10, "complex_mat_eigen_herm: vectors");
                let mut c = tri.clone();
                let r = complex_mat_cholesky(&mut c, upper);
                ensure!(r.is_ok() == (exact(0) > 0.0), "complex_mat_cholesky: {:?} for the smallest eigenvalue {}", r, exact(0));
                if r.is_ok() {
                    let f = ComplexMatrix::initialized(n, n, |i, j| if (upper && i > j) || (!upper && i < j) { cpx!(0.0, 0.0) } else { c.get(i, j) });
                    let fh = ct(&f);
                    let er = if upper { cmul_err(&fh, &f, &|i, j| hm.get(i, j)) } else { cmul_err(&f, &fh, &|i, j| hm.get(i, j)) };
                    ensure!(er <= 1e-11, "complex_mat_cholesky: error {}", er);
                }
            }
            t.op();
            let (mut l, mut v) = (Vector::new(n), Matrix::new(n, n));
            mat_eigen_sym_jacobi(&mut l, &mut v, &mut m.clone())?;
            ensure!(mul_err(&v.transposed(), &v, &delta) <= TOL && mul_err(&m, &v, &|i, j| v.get(i, j) * l[j]) <= 1e-9, "mat_eigen_sym_jacobi: vectors");
            let mut got: Vec<f64> = l.as_data().clone();
            got.sort_by(|a, b| a.partial_cmp(b).unwrap());
            for k in 0..n {
                ensure!(near(got[k], exact(k), 1e-10), "mat_eigen_sym_jacobi: eigenvalue {} is {} instead of {}", k, got[k], exact(k));
            }
            Ok(())
        });
    });
    // complex spectra of larger orders: polynomials of the cyclic shift
    let orders = [9, 10, 12, 16, 17, 20, 24, 33, 40];
    run.section("larger-spectra", orders.len() * 5, |ctx, w| {
        let n = orders[w / 5];
        let terms: Vec<(usize, i64)> = match w % 5 {
            0 => vec![(1, 1)],
            1 => vec![(1, 1), (2, 1)],
            2 => vec![(1, 1), (n - 1, -1)],
            3 => vec![(0, 2), (1, -1), (3, 1)],
            _ => vec![(0, 1), (n / 2, 1), (1, 2)],
        };
        let a: Vec<Vec<i64>> = (0..n).map(|i| (0..n).map(|j| terms.iter().filter(|t| (i + t.0) % n == j).map(|t| t.1).sum()).collect()).collect();
        ctx.case(format!("n={} {:?}", n, terms), |t| check_general_eigen(t, &a));
        let z: Vec<Vec<(i64, i64)>> = (0..n).map(|i| (0..n).map(|j| (a[i][j] + if i == j { 12 } else { 0 }, a[j][(i + 1) % n])).collect()).collect();
        ctx.case(format!("complex n={} {:?}", n, terms), |t| check_complex(t, &z, false, true, false));
        if n <= 17 {
            for shift in [0, 1] {
                let b: Vec<Vec<i64>> = (0..n).map(|i| (0..n).map(|j| if i == j { 1 + (shift * i % 2) as i64 } else { 0 }).collect()).collect();
                ctx.case(format!("generalized n={} {:?} {}", n, terms, shift), |t| check_gen_eigen(t, &a, &b));
            }
            ctx.case(format!("complex generalized n={} {:?}", n, terms), |t| {
                let mk = |s: usize| ComplexMatrix::initialized(n, n, |i, j| cpx!(a[i][j] as f64 + (super::l01::ival(800 + s, i, j) % 4) as f64, (super::l01::ival(850 + s, i, j) % 3) as f64));
                complex_gen(t, &mk(w), &mk(w + 7))
            });
        }
    });
    // generalized eigenproblem: all pairs of order 2, structured pairs above
    let g3: Vec<i64> = vec![-1, 0, 1];
    run.section("generalized2", 81, |ctx, i| {
        let a = mat_from_digits(i, 2, 2, &g3);
        for k in 0..81 {
            let b = mat_from_digits(k, 2, 2, &g3);
            ctx.case(format!("a={} b={}", show(&a), show(&b)), |t| check_gen_eigen(t, &a, &b));
        }
    });
    run.section("generalized-structured", 7, |ctx, k| {
        let n = k + 1;
        let fam = structured(n);
        let pick: Vec<&(String, Vec<Vec<i64>>)> = fam.iter().filter(|f| ["identity", "tridiagonal", "upper", "companion", "skew", "full0", "full1", "dd0", "sym0", "jordan", "circulant0", "zero-row0"].contains(&f.0.as_str())).collect();
        for a in &pick {
            for b in &pick {
                ctx.case(format!("n={} a={} b={}", n, a.0, b.0), |t| check_gen_eigen(t, &a.1, &b.1));
            }
        }
    });
    // complex
    let g: Vec<(i64, i64)> = vec![(0, 0), (1, 0), (-1, 0), (0, 1), (0, -1), (1, 1), (2, -1)];
    run.section("complex1", g.len(), |ctx, i| {
        let a = vec![vec![g[i]]];
        ctx.case(cshow(&a), |t| check_complex(t, &a, true, true, true));
    });
    run.section("complex2", pow(7, 4), |ctx, i| {
        let d = digits(i, 7, 4);
        let a = vec![vec![g[d[0]], g[d[1]]], vec![g[d[2]], g[d[3]]]];
        ctx.case(cshow(&a), |t| check_complex(t, &a, true, true, true));
    });
    let g2: Vec<(i64, i64)> = vec![(0, 0), (1, 0), (0, 1)];
    run.section("complex3", 243, |ctx, c| {
        for i in 0..81 {
            let d = digits(c * 81 + i, 3, 9);
            let a: Vec<Vec<(i64, i64)>> = (0..3).map(|i| (0..3).map(|j| g2[d[3 * i + j]]).collect()).collect();
            ctx.case(cshow(&a), |t| check_complex(t, &a, true, true, true));
        }
    });
    run.section("complex-structured", 8, |ctx, k| {
        let n = k + 1;
        let fam = structured(n);
        for p in 0..fam.len() {
            let q = (p * 7 + 3) % fam.len();
            let a: Vec<Vec<(i64, i64)>> = (0..n).map(|i| (0..n).map(|j| (fam[p].1[i][j] + if i == j { 3 * n as i64 } else { 0 }, fam[q].1[i][j])).collect()).collect();
            // well conditioned only if diagonally dominant; otherwise use spectral checks only
            let dominant = (0..n).all(|i| {
                let f = |z: (i64, i64)| ((z.0 * z.0 + z.1 * z.1) as f64).sqrt();
                f(a[i][i]) > (0..n).filter(|&j| j != i).map(|j| f(a[i][j])).sum::<f64>()
            });
            if n <= 4 || dominant {
                ctx.case(format!("n={} {}+i{}", n, fam[p].0, fam[q].0), |t| check_complex(t, &a, n <= 3, true, n <= 4));
            }
            // rectangular svd
            for m in 1..=8 {
                let z = ComplexMatrix::initialized(n, m, |i, j| cpx!(super::l01::ival(600 + p, i, j) as f64 / 8.0, super::l01::ival(700 + q, i, j) as f64 / 8.0));
                if p < 3 {
                    ctx.case(format!("svd {}x{} {}", n, m, p), |t| {
                        t.op();
                        let kk = n.min(m);
                        let (mut s, mut u, mut vh) = (Vector::new(kk), ComplexMatrix::new(n, n), ComplexMatrix::new(m, m));
                        complex_mat_svd(&mut s, &mut u, &mut vh, &mut z.clone())?;
                        csvd(&z, &s, &u, &vh)
                    });
                }
            }
        }
    });
    run.section("complex-generalized", 5, |ctx, k| {
        let n = k + 1;
        for s in 0..12 {
            for r in 0..12 {
                let mk = |s: usize| ComplexMatrix::initialized(n, n, |i, j| cpx!((super::l01::ival(800 + s, i, j) % 4) as f64, (super::l01::ival(850 + s, i, j) % 3) as f64));
                ctx.case(format!("n={} {} {}", n, s, r), |t| complex_gen(t, &mk(s), &mk(r + 12)));
            }
        }
    });
    // one entry, or one pair of entries, beside the diagonal
    run.section("one-entry", 11, |ctx, k| {
        let n = k + 2;
        for (p, q) in (0..n * n).map(|c| (c / n, c % n)).filter(|(p, q)| p != q) {
            for off in [1, -3] {
                ctx.case(format!("n={n} ({p},{q}) {off}"), |t| {
                    let mut a: Vec<Vec<i64>> = (0..n).map(|i| (0..n).map(|j| if i == j { 2 + i as i64 } else { 0 }).collect()).collect();
                    a[p][q] = off;
                    check_square(t, &a, true)?;
                    check_general_eigen(t, &a)?;
                    check_svd(t, &a)?;
                    a[q][p] = off;
                    check_square(t, &a, true)?;
                    check_symmetric(t, &a)?;
                    check_svd(t, &a)
                });
            }
        }
    });
    // wrong dimensions are refused
    run.section("dims", 1, |ctx, _| {
        for m in 0..4 {
            for n in 0..4 {
                for p in 0..4 {
                    for q in 0..4 {
                        ctx.case(format!("a={}x{} b={}x{}", m, n, p, q), |t| {
                            let a = Matrix::initialized(m, n, |i, j| delta(i, j) + 0.25);
                            let ac = to_c(&a);
                            let square = m == n;
                            let same = square && p == m && q == m;
                            t.ops(12);
                            if !same {
                                ensure!(mat_inverse(&mut Matrix::new(p, q), &a).is_err(), "inverse accepted");
                                ensure!(complex_mat_inverse(&mut ComplexMatrix::new(p, q), &ac).is_err(), "complex inverse accepted");
                            }
                            if !(p == n && q == m) {
                                ensure!(mat_pseudo_inverse(&mut Matrix::new(p, q), &mut a.clone()).is_err(), "pinv accepted");
                            }
                            if p == n && q == m {
                                // a well-posed call, possibly with an empty dimension, must not crash
                                let _ = mat_pseudo_inverse(&mut Matrix::new(p, q), &mut a.clone());
                            }
                            if !square {
                                ensure!(mat_cholesky(&mut a.clone(), true).is_err(), "cholesky accepted");
                                ensure!(complex_mat_cholesky(&mut ac.clone(), true).is_err(), "complex cholesky accepted");
                            }
                            if !(square && p == m) {
                                ensure!(solve_lin_sys(&mut Vector::new(p), &mut a.clone()).is_err(), "solve accepted");
                                ensure!(complex_solve_lin_sys(&mut ComplexVector::new(p), &mut ac.clone()).is_err(), "complex solve accepted");
                                ensure!(mat_eigen_sym(&mut Vector::new(p), &mut a.clone(), true).is_err(), "eigen_sym accepted");
                                ensure!(complex_mat_eigen_herm(&mut Vector::new(p), &mut ac.clone(), true).is_err(), "eigen_herm accepted");
                                ensure!(mat_eigenvalues(&mut Vector::new(p), &mut Vector::new(m), &mut a.clone()).is_err(), "eigenvalues accepted");
                                ensure!(mat_eigenvalues(&mut Vector::new(m), &mut Vector::new(p), &mut a.clone()).is_err(), "eigenvalues accepted");
                            }
                            if !same {
                                ensure!(mat_eigen_sym_jacobi(&mut Vector::new(m), &mut Matrix::new(p, q), &mut a.clone()).is_err(), "jacobi accepted");
                                ensure!(
                                    mat_eigen(&mut Vector::new(m), &mut Vector::new(m), &mut Matrix::new(p, q), &mut Matrix::new(m, m), &mut a.clone()).is_err(),
                                    "eigen accepted"
                                );
                                ensure!(
                                    mat_eigen(&mut Vector::new(m), &mut Vector::new(m), &mut Matrix::new(m, m), &mut Matrix::new(p, q), &mut a.clone()).is_err(),
                                    "eigen accepted"
                                );
                                ensure!(complex_mat_eigen(&mut ComplexVector::new(m), &mut ComplexMatrix::new(p, q), &mut ac.clone()).is_err(), "complex eigen accepted");
                                ensure!(
                                    mat_gen_eigen(&mut Vector::new(m), &mut Vector::new(m), &mut Vector::new(m), &mut Matrix::new(m, m), &mut a.clone(), &mut Matrix::new(p, q)).is_err(),
                                    "gen eigen accepted"
                                );
                                ensure!(
                                    mat_gen_eigen(&mut Vector::new(m), &mut Vector::new(m), &mut Vector::new(m), &mut Matrix::new(p, q), &mut a.clone(), &mut Matrix::new(m, m)).is_err(),
                                    "gen eigen accepted"
                                );
                            }
                            // left and right eigenvectors: the sides in turn
                            for side in 0..if same { 0 } else { 6 } {
                                let z = || Vector::new(m);
                                let cz = || ComplexVector::new(m);
                                let d = |k: usize| if side == k { Matrix::new(p, q) } else { Matrix::new(m, m) };
                                let cd = |k: usize| if side == k { ComplexMatrix::new(p, q) } else { ComplexMatrix::new(m, m) };
                                let bad = match side {
                                    0..=3 => mat_eigen_lr(&mut z(), &mut z(), &mut d(0), &mut d(1), &mut d(2), &mut d(3), &mut a.clone()).is_err(),
                                    _ => true,
                                };
                                ensure!(bad, "eigen_lr accepted matrix {side}");
                                if side < 3 {
                                    ensure!(mat_gen_eigen_lr(&mut z(), &mut z(), &mut z(), &mut d(0), &mut d(1), &mut a.clone(), &mut d(2)).is_err(), "gen_eigen_lr accepted matrix {side}");
                                    ensure!(complex_mat_gen_eigen_lr(&mut cz(), &mut cz(), &mut cd(0), &mut cd(1), &mut ac.clone(), &mut cd(2)).is_err(), "complex gen_eigen_lr accepted matrix {side}");
                                }
                                if side < 2 {
                                    ensure!(complex_mat_eigen_lr(&mut cz(), &mut cd(0), &mut cd(1), &mut ac.clone()).is_err(), "complex eigen_lr accepted matrix {side}");
                                    ensure!(complex_mat_gen_eigen(&mut cz(), &mut cz(), &mut cd(0), &mut ac.clone(), &mut cd(1)).is_err(), "complex gen_eigen accepted matrix {side}");
                                }
                            }
                            // eigenvalues, each list in turn
                            for side in 0..if square && p != m { 3 } else { 0 } {
                                let z = |k: usize| Vector::new(if side == k { p } else { m });
                                let cz = |k: usize| ComplexVector::new(if side == k { p } else { m });
                                let d = || Matrix::new(m, m);
                                let cd = || ComplexMatrix::new(m, m);
                                ensure!(mat_gen_eigen(&mut z(0), &mut z(1), &mut z(2), &mut d(), &mut a.clone(), &mut d()).is_err(), "gen_eigen accepted list {side}");
                                ensure!(mat_gen_eigen_lr(&mut z(0), &mut z(1), &mut z(2), &mut d(), &mut d(), &mut a.clone(), &mut d()).is_err(), "gen_eigen_lr accepted list {side}");
                                if side < 2 {
                                    ensure!(mat_eigen(&mut z(0), &mut z(1), &mut d(), &mut d(), &mut a.clone()).is_err(), "eigen accepted list {side}");
                                    ensure!(mat_eigen_lr(&mut z(0), &mut z(1), &mut d(), &mut d(), &mut d(), &mut d(), &mut a.clone()).is_err(), "eigen_lr accepted list {side}");
                                    ensure!(complex_mat_gen_eigen(&mut cz(0), &mut cz(1), &mut cd(), &mut ac.clone(), &mut cd()).is_err(), "complex gen_eigen accepted list {side}");
                                    ensure!(complex_mat_gen_eigen_lr(&mut cz(0), &mut cz(1), &mut cd(), &mut cd(), &mut ac.clone(), &mut cd()).is_err(), "complex gen_eigen_lr accepted list {side}");
                                }
                                if side < 1 {
                                    ensure!(complex_mat_eigen(&mut cz(0), &mut cd(), &mut ac.clone()).is_err(), "complex eigen accepted the list");
                                    ensure!(complex_mat_eigen_lr(&mut cz(0), &mut cd(), &mut cd(), &mut ac.clone()).is_err(), "complex eigen_lr accepted the list");
                                    ensure!(mat_eigen_sym_jacobi(&mut z(0), &mut d(), &mut a.clone()).is_err(), "jacobi accepted the list");
                                }
                            }
                            let k = m.min(n);
                            if p != k {
                                ensure!(mat_svd(&mut Vector::new(p), &mut Matrix::new(m, m), &mut Matrix::new(n, n), &mut a.clone()).is_err(), "svd accepted S");
                                ensure!(complex_mat_svd(&mut Vector::new(p), &mut ComplexMatrix::new(m, m), &mut ComplexMatrix::new(n, n), &mut ac.clone()).is_err(), "svd accepted S");
                            }
                            if !(p == m && q == m) {
                                ensure!(mat_svd(&mut Vector::new(k), &mut Matrix::new(p, q), &mut Matrix::new(n, n), &mut a.clone()).is_err(), "svd accepted U");
                                ensure!(complex_mat_svd(&mut Vector::new(k), &mut ComplexMatrix::new(p, q), &mut ComplexMatrix::new(n, n), &mut ac.clone()).is_err(), "svd accepted U");
                            }
                            if !(p == n && q == n) {
                                ensure!(mat_svd(&mut Vector::new(k), &mut Matrix::new(m, m), &mut Matrix::new(p, q), &mut a.clone()).is_err(), "svd accepted V");
                                ensure!(complex_mat_svd(&mut Vector::new(k), &mut ComplexMatrix::new(m, m), &mut ComplexMatrix::new(p, q), &mut ac.clone()).is_err(), "svd accepted V");
                            }
                            if p != k {
                                ensure!(mat_svd(&mut Vector::new(p), &mut Matrix::new(m, m), &mut Matrix::new(n, n), &mut a.clone()).is_err(), "svd accepted s");
                            }
                            Ok(())
                        });
                    }
                }
            }
        }
    });
}
