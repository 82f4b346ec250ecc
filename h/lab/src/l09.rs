//! L09: the comparison helpers accept exactly what agrees, and the functions for testing are coherent

use mc::*;
use num_complex::Complex64;
use russell_lab::*;

/// Values for the comparisons: equal, apart by less than, exactly, and more than the tolerances, and extreme values
fn values() -> Vec<f64> {
    vec![0.0, -0.0, 1.0, 1.125, 1.25, 1.5, -1.0, -1.125, 3.0, -3.0, 1e300, -1e300, f64::MAX, -f64::MAX, 5e-324, f64::INFINITY, f64::NEG_INFINITY, f64::NAN]
}

const TOLS: [f64; 6] = [0.0, 0.125, 0.25, 0.5, 4.0, 1e305];

/// Whether two numbers must be accepted
fn agree(a: f64, b: f64, tol: f64) -> bool {
    a.is_finite() && b.is_finite() && (a - b).abs() <= tol
}

fn verdict(name: &str, accepted: bool, want: bool) -> Outcome {
    ensure!(accepted == want, "{name} {} what {}", if accepted { "accepts" } else { "refuses" }, if want { "agrees" } else { "does not agree" });
    Ok(())
}

fn scalars(run: &mut Run) {
    let v = values();
    let n = v.len();
    run.section("numbers", n * n, |ctx, i| {
        let (a, b) = (v[i / n], v[i % n]);
        for tol in TOLS {
            ctx.case(format!("{a:?}/{b:?}/{tol:?}"), |t| {
                t.ops(8);
                t.state(&(a.to_bits(), b.to_bits(), tol.to_bits()));
                let want = agree(a, b, tol);
                verdict("approx_eq", guarded(|| approx_eq(a, b, tol)).is_ok(), want)?;
                verdict("array_approx_eq", guarded(|| array_approx_eq(&[a], &[b], tol)).is_ok(), want)?;
                let alike = (a.is_nan() && b.is_nan()) || a.to_bits() == b.to_bits();
                verdict("assert_alike", guarded(|| assert_alike(a, b)).is_ok(), alike)?;
                for (c, d) in [(0.5, 0.5), (0.5, 1.0), (0.0, f64::NAN), (f64::INFINITY, f64::INFINITY)] {
                    let want = want && agree(c, d, tol);
                    verdict("complex_approx_eq", guarded(|| complex_approx_eq(Complex64::new(a, c), Complex64::new(b, d), tol)).is_ok(), want)?;
                    verdict("complex_approx_eq", guarded(|| complex_approx_eq(Complex64::new(c, a), Complex64::new(d, b), tol)).is_ok(), want)?;
                }
                // other types of numbers
                if a.abs() <= 3.0 && b.abs() <= 3.0 && a.fract() == 0.0 && b.fract() == 0.0 {
                    verdict("approx_eq", guarded(|| approx_eq(a as i32, b as i32, tol)).is_ok(), want)?;
                    verdict("array_approx_eq", guarded(|| array_approx_eq(&[7, a as i64], &[7, b as i64], tol)).is_ok(), want)?;
                    if a >= 0.0 && b >= 0.0 {
                        verdict("approx_eq", guarded(|| approx_eq(a as usize, b as usize, tol)).is_ok(), want)?;
                        verdict("array_approx_eq", guarded(|| array_approx_eq(&[a as u8, 1], &[b as u8, 1], tol)).is_ok(), want)?;
                    }
                }
                if (a as f32) as f64 == a && (b as f32) as f64 == b {
                    verdict("approx_eq", guarded(|| approx_eq(a as f32, b as f32, tol)).is_ok(), want)?;
                }
                Ok(())
            });
        }
    });
}

/// Every length and every pattern of differences
fn arrays(run: &mut Run) {
    let max = run.pick(4, 6);
    let kinds = 5;
    run.section("arrays", (max + 1) * (max + 1), |ctx, i| {
        let (m, n) = (i / (max + 1), i % (max + 1));
        // difference at each position: none, half the tolerance, the tolerance, twice the tolerance, not a number
        let common = m.min(n);
        for code in 0..pow(kinds, common) {
            let d = digits(code, kinds, common);
            ctx.case(format!("{m}/{n}/{d:?}"), |t| {
                t.ops(6);
                t.state(&(m, n, &d));
                let tol = 0.25;
                let mut u: Vec<f64> = (0..m).map(|k| k as f64 - 1.0).collect();
                let v: Vec<f64> = (0..n).map(|k| k as f64 - 1.0).collect();
                for (k, d) in d.iter().enumerate() {
                    u[k] += [0.0, -0.125, 0.25, 0.5, f64::NAN][*d];
                }
                let want = m == n && d.iter().all(|d| *d < 3);
                let same = vec![3.0; 9];
                verdict("array_approx_eq", guarded(|| array_approx_eq(&u, &v, tol)).is_ok(), want)?;
                verdict("array_approx_eq", guarded(|| array_approx_eq(&v, &u, tol)).is_ok(), want)?;
                verdict("vec_approx_eq", guarded(|| vec_approx_eq(&Vector::from(&u), &v, tol)).is_ok(), want)?;
                verdict("vec_approx_eq", guarded(|| vec_approx_eq(&Vector::from(&v), &u.as_slice(), tol)).is_ok(), want)?;
                for imag in [false, true] {
                    let cu: Vec<Complex64> = u.iter().zip(&same).map(|(a, b)| if imag { Complex64::new(*b, *a) } else { Complex64::new(*a, *b) }).collect();
                    let cv: Vec<Complex64> = v.iter().zip(&same).map(|(a, b)| if imag { Complex64::new(*b, *a) } else { Complex64::new(*a, *b) }).collect();
                    verdict("complex_array_approx_eq", guarded(|| complex_array_approx_eq(&cu, &cv, tol)).is_ok(), want)?;
                    verdict("complex_vec_approx_eq", guarded(|| complex_vec_approx_eq(&ComplexVector::from(&cv), &cu, tol)).is_ok(), want)?;
                }
                Ok(())
            });
        }
    });
}

/// Every shape and every pattern of differences
fn matrices(run: &mut Run) {
    let shapes: Vec<(usize, usize)> = vec![(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2)];
    let ns = shapes.len();
    let kinds = run.pick(3, 5);
    run.section("matrices", ns * ns, |ctx, i| {
        let (sa, sb) = (shapes[i / ns], shapes[i % ns]);
        let count = if sa == sb { pow(kinds, sa.0 * sa.1) } else { 1 };
        for code in 0..count {
            let d = if sa == sb { digits(code, kinds, sa.0 * sa.1) } else { vec![0; sa.0 * sa.1] };
            ctx.case(format!("{sa:?}/{sb:?}/{d:?}"), |t| {
                t.ops(6);
                t.state(&(sa, sb, &d));
                let tol = 0.25;
                let delta = [0.0, -0.25, 0.5, f64::NAN, f64::NEG_INFINITY];
                let a: Vec<Vec<f64>> = (0..sa.0).map(|i| (0..sa.1).map(|j| (3 * i + j) as f64 + delta[d[i * sa.1 + j]]).collect()).collect();
                let b: Vec<Vec<f64>> = (0..sb.0).map(|i| (0..sb.1).map(|j| (3 * i + j) as f64).collect()).collect();
                let want = sa == sb && d.iter().all(|d| *d < 2);
                verdict("mat_approx_eq", guarded(|| mat_approx_eq(&Matrix::from(&a), &b, tol)).is_ok(), want)?;
                verdict("mat_approx_eq", guarded(|| mat_approx_eq(&Matrix::from(&b), &a, tol)).is_ok(), want)?;
                verdict("mat_approx_eq", guarded(|| mat_approx_eq(&Matrix::from(&a), &Matrix::from(&b), tol)).is_ok(), want)?;
                for imag in [false, true] {
                    let pack = |v: &Vec<Vec<f64>>| -> Vec<Vec<Complex64>> { v.iter().map(|r| r.iter().map(|x| if imag { Complex64::new(1.0, *x) } else { Complex64::new(*x, 1.0) }).collect()).collect() };
                    let (ca, cb) = (pack(&a), pack(&b));
                    verdict("complex_mat_approx_eq", guarded(|| complex_mat_approx_eq(&ComplexMatrix::from(&ca), &cb, tol)).is_ok(), want)?;
                    verdict("complex_mat_approx_eq", guarded(|| complex_mat_approx_eq(&ComplexMatrix::from(&cb), &ca, tol)).is_ok(), want)?;
                }
                Ok(())
            });
        }
    });
}

/// Many components with one deviation at every position
fn larger(run: &mut Run) {
    let sizes = [7, 8, 9, 16, 17, 21, 33, 65];
    run.section("larger", sizes.len(), |ctx, k| {
        let n = sizes[k];
        for at in 0..n {
            // in the first array, in the second one, or in both
            for (kind, delta) in [0.125, -0.5, f64::NAN, f64::INFINITY, f64::NEG_INFINITY].into_iter().enumerate().flat_map(|k| [(k.0, k.1), (k.0 + 5, k.1), (k.0 + 10, k.1)]) {
                ctx.case(format!("{n}/{at}/{kind}"), |t| {
                    t.ops(9);
                    let want = kind % 5 == 0 || kind == 11;
                    let mut v: Vec<f64> = (0..n).map(|i| i as f64 - 4.0).collect();
                    let mut u = v.clone();
                    if kind / 5 != 1 {
                        u[at] += delta;
                    }
                    if kind / 5 != 0 {
                        v[at] += delta;
                    }
                    t.state_f64(&u);
                    verdict("array_approx_eq", guarded(|| array_approx_eq(&u, &v, 0.25)).is_ok(), want)?;
                    verdict("vec_approx_eq", guarded(|| vec_approx_eq(&Vector::from(&u), &v, 0.25)).is_ok(), want)?;
                    // the same as a row, a column and the row or column of a matrix
                    for shape in 0..4 {
                        let (nr, nc) = [(1, n), (n, 1), (3, n), (n, 3)][shape];
                        let build = |w: &[f64]| -> Vec<Vec<f64>> { (0..nr).map(|i| (0..nc).map(|j| if shape % 2 == 0 { if i == nr / 2 { w[j] } else { 1.0 } } else { if j == nc / 2 { w[i] } else { 1.0 } }).collect()).collect() };
                        let (a, b) = (build(&u), build(&v));
                        verdict("mat_approx_eq", guarded(|| mat_approx_eq(&Matrix::from(&a), &b, 0.25)).is_ok(), want)?;
                        for imag in [false, true] {
                            let pack = |v: &Vec<Vec<f64>>| -> Vec<Vec<Complex64>> { v.iter().map(|r| r.iter().map(|x| if imag { Complex64::new(1.0, *x) } else { Complex64::new(*x, 1.0) }).collect()).collect() };
                            let (ca, cb) = (pack(&a), pack(&b));
                            verdict("complex_mat_approx_eq", guarded(|| complex_mat_approx_eq(&ComplexMatrix::from(&ca), &cb, 0.25)).is_ok(), want)?;
                        }
                    }
                    for imag in [false, true] {
                        let pack = |v: &[f64]| -> Vec<Complex64> { v.iter().map(|x| if imag { Complex64::new(1.0, *x) } else { Complex64::new(*x, 1.0) }).collect() };
                        let (cu, cv) = (pack(&u), pack(&v));
                        verdict("complex_array_approx_eq", guarded(|| complex_array_approx_eq(&cu, &cv, 0.25)).is_ok(), want)?;
                        verdict("complex_vec_approx_eq", guarded(|| complex_vec_approx_eq(&ComplexVector::from(&cu), &cv, 0.25)).is_ok(), want)?;
                    }
                    Ok(())
                });
            }
        }
    });
}

/// Polynomials of low degree with right and wrong derivatives, functions that fail or are not finite
fn derivatives(run: &mut Run) {
    let max = run.pick(3, 5);
    let points = [-2.0, -0.5, 0.0, 0.75, 3.0];
    run.section("derivatives", pow(max, 4) * points.len(), |ctx, i| {
        let x = points[i / pow(max, 4)];
        let c: Vec<f64> = digits(i % pow(max, 4), max, 4).iter().map(|d| *d as f64 - 1.0).collect();
        let f = |x: f64| c[0] + x * (c[1] + x * (c[2] + x * c[3]));
        let d1 = c[1] + x * (2.0 * c[2] + x * 3.0 * c[3]);
        let d2 = 2.0 * c[2] + 6.0 * x * c[3];
        for tol in [1e-3, 0.1] {
            // difference in units of the tolerance
            for off in [0.0, 0.9, -0.9, 1.1, -1.1, 50.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY] {
                for kind in 0..3 {
                    ctx.case(format!("{c:?}/{x}/{tol}/{off}/{kind}"), |t| {
                        t.ops(8);
                        let want = kind == 0 && off.abs() < 1.0;
                        let mut calls = 0;
                        let mut g = |x: f64, a: &mut u8| -> Result<f64, StrError> {
                            calls += 1;
                            assert_eq!(*a, 17);
                            match kind {
                                1 if calls % 3 == 2 => Err("stop"),
                                2 if calls % 4 == 0 => Ok(f64::NAN),
                                _ => Ok(f(x)),
                            }
                        };
                        let (w1, w2) = (d1 + off * tol, d2 + off * tol);
                        verdict("deriv1_approx_eq", guarded(|| deriv1_approx_eq(w1, x, &mut 17, tol, &mut g)).is_ok(), want)?;
                        verdict("deriv1_approx_eq_fw", guarded(|| deriv1_approx_eq_fw(w1, x, &mut 17, tol, &mut g)).is_ok(), want)?;
                        verdict("deriv1_approx_eq_bw", guarded(|| deriv1_approx_eq_bw(w1, x, &mut 17, tol, &mut g)).is_ok(), want)?;
                        verdict("deriv2_approx_eq", guarded(|| deriv2_approx_eq(w2, x, &mut 17, tol, &mut g)).is_ok(), want)?;
                        verdict("deriv2_approx_eq_fw", guarded(|| deriv2_approx_eq_fw(w2, x, &mut 17, tol, &mut g)).is_ok(), want)?;
                        verdict("deriv2_approx_eq_bw", guarded(|| deriv2_approx_eq_bw(w2, x, &mut 17, tol, &mut g)).is_ok(), want)?;
                        // the deviation is in one of the components
                        for n in 0..4 {
                            for at in 0..n.max(1) {
                                let mut h = |v: &mut Vector, x: f64, a: &mut u8| -> Result<(), StrError> {
                                    for k in 0..n {
                                        v[k] = (k + 1) as f64 * x * x;
                                    }
                                    if n > 0 {
                                        v[at] = g(x, a)?;
                                    }
                                    Ok(())
                                };
                                let mut e1 = Vector::initialized(n, |k| 2.0 * (k + 1) as f64 * x);
                                let mut e2 = Vector::initialized(n, |k| 2.0 * (k + 1) as f64);
                                if n > 0 {
                                    (e1[at], e2[at]) = (w1, w2);
                                }
                                let want = want || n == 0;
                                verdict("vec_deriv1_approx_eq", guarded(|| vec_deriv1_approx_eq(&e1, x, &mut 17, tol, &mut h)).is_ok(), want)?;
                                verdict("vec_deriv2_approx_eq", guarded(|| vec_deriv2_approx_eq(&e2, x, &mut 17, tol, &mut h)).is_ok(), want)?;
                            }
                        }
                        t.state(&(x.to_bits(), d1.to_bits(), d2.to_bits(), off.to_bits(), kind));
                        Ok(())
                    });
                }
            }
        }
    });
}

/// Gauss-Legendre with five points in many intervals, after a change of variable that removes weak singularities at the ends
fn integrate(f: impl Fn(f64) -> Result<f64, String>, a: f64, b: f64) -> Result<f64, String> {
    let n = 20_000;
    let f = |s: f64| -> Result<f64, String> {
        let w = 30.0 * (b - a) * s * s * (1.0 - s) * (1.0 - s);
        let left = s * s * s * (10.0 + s * (6.0 * s - 15.0));
        let r = 1.0 - s;
        let x = if s < 0.5 { a + (b - a) * left } else { b - (b - a) * r * r * r * (10.0 + r * (6.0 * r - 15.0)) };
        Ok(w * f(x)?)
    };
    let h = 1.0 / n as f64;
    let (x1, x2) = ((5.0 - 2.0 * (10.0_f64 / 7.0).sqrt()).sqrt() / 3.0, (5.0 + 2.0 * (10.0_f64 / 7.0).sqrt()).sqrt() / 3.0);
    let (w0, w1, w2) = (128.0 / 225.0, (322.0 + 13.0 * 70.0_f64.sqrt()) / 900.0, (322.0 - 13.0 * 70.0_f64.sqrt()) / 900.0);
    let mut sum = 0.0;
    for k in 0..n {
        let mid = (k as f64 + 0.5) * h;
        let mut part = w0 * f(mid)?;
        for (x, w) in [(x1, w1), (x2, w2)] {
            part += w * (f(mid - x * h / 2.0)? + f(mid + x * h / 2.0)?);
        }
        sum += part * h / 2.0;
    }
    Ok(sum)
}

/// The functions offered for testing: derivatives, brackets, number of roots, integral
fn functions(run: &mut Run) {
    let all = get_test_functions();
    let grid = run.pick(400, 4000);
    run.section("functions for testing", all.len(), |ctx, i| {
        let p = &all[i];
        let f = |x: f64| -> Result<f64, String> { Ok((p.f)(x, &mut 0)?) };
        let g = |x: f64| -> Result<f64, String> { Ok((p.g)(x, &mut 0)?) };
        let h = |x: f64| -> Result<f64, String> { Ok((p.h)(x, &mut 0)?) };
        ctx.case(format!("{}/general", p.name), |t| {
            t.op();
            ensure!(p.id == i, "number {} at position {i}", p.id);
            ensure!(p.range.0 < p.range.1, "range {:?}", p.range);
            if i == 0 {
                ensure!(f(0.0).is_err() && g(0.0).is_err() && h(0.0).is_err(), "the undefined function is defined");
                return Ok(());
            }
            if let Some((a, b, ii)) = p.integral {
                let w = integrate(f, a, b)?;
                ensure!((w - ii).abs() <= 1e-11 * (1.0 + ii.abs()), "integral {ii} instead of {w}");
            }
            // roots in the range
            let n = 100_003;
            let mut roots = 0;
            let scale = (0..=100).map(|k| f(p.range.0 + (p.range.1 - p.range.0) * k as f64 / 100.0).unwrap_or(0.0).abs()).fold(0.0, f64::max);
            let at = |k: usize| p.range.0 + (p.range.1 - p.range.0) * k as f64 / n as f64;
            let mut before: Option<f64> = None;
            for k in 0..=n {
                let v = f(at(k))?;
                if v.abs() < 1e-13 * scale {
                    roots += 1;
                    before = None;
                } else {
                    if let Some(b) = before {
                        if b * v < 0.0 {
                            roots += 1;
                        }
                    }
                    before = Some(v);
                }
            }
            t.ops(n);
            t.state(&roots);
            ensure!(roots == p.nroot, "{} roots announced, but there are {roots}", p.nroot);
            let given = [&p.root1, &p.root2, &p.root3].iter().filter(|r| r.is_some()).count();
            ensure!(given <= p.nroot, "{given} roots given out of {}", p.nroot);
            for (name, b) in [("root1", &p.root1), ("root2", &p.root2), ("root3", &p.root3)] {
                if let Some(b) = b {
                    ensure!(b.a < b.xo && b.xo < b.b, "{name} {} is not between {} and {}", b.xo, b.a, b.b);
                    ensure!(near(b.fa, f(b.a)?, 1e-12 * (1.0 + b.fa.abs())) && near(b.fb, f(b.b)?, 1e-12 * (1.0 + b.fb.abs())), "{name}: values at the ends are {}, {} instead of {}, {}", b.fa, b.fb, f(b.a)?, f(b.b)?);
                    ensure!(b.fa * b.fb < 0.0, "{name} is not bracketed");
                    ensure!(b.fxo == 0.0 && f(b.xo)?.abs() <= 1e-13 * (1.0 + g(b.xo)?.abs()), "{name}: f({}) = {}", b.xo, f(b.xo)?);
                }
            }
            for (name, b) in [("min1", &p.min1), ("min2", &p.min2), ("min3", &p.min3)] {
                if let Some(b) = b {
                    ensure!(b.a < b.xo && b.xo < b.b, "{name} {} is not between {} and {}", b.xo, b.a, b.b);
                    ensure!(near(b.fa, f(b.a)?, 1e-12 * (1.0 + b.fa.abs())) && near(b.fb, f(b.b)?, 1e-12 * (1.0 + b.fb.abs())), "{name}: values at the ends are {}, {} instead of {}, {}", b.fa, b.fb, f(b.a)?, f(b.b)?);
                    ensure!(b.fxo < b.fa && b.fxo < b.fb, "{name} is not bracketed");
                    ensure!(near(b.fxo, f(b.xo)?, 1e-13 * (1.0 + b.fxo.abs())), "{name}: value {} instead of {}", b.fxo, f(b.xo)?);
                    ensure!(g(b.xo)?.abs() <= 1e-7 * (1.0 + h(b.xo)?.abs()) && h(b.xo)? > 0.0, "{name}: slope {}, curvature {}", g(b.xo)?, h(b.xo)?);
                }
            }
            ensure!(p.tol_min >= 0.0 && p.tol_root >= 0.0 && p.tol_integral >= 0.0, "negative tolerance");
            Ok(())
        });
        if i == 0 {
            return;
        }
        for k in 1..grid {
            let x = p.range.0 + (p.range.1 - p.range.0) * k as f64 / grid as f64;
            ctx.case(format!("{}/x={x}", p.name), |t| {
                t.ops(3);
                t.state_f64(&[f(x)?, g(x)?, h(x)?]);
                // Richardson extrapolation of central differences
                let slope = |q: &dyn Fn(f64) -> Result<f64, String>| -> Result<(f64, f64), String> {
                    let d = |s: f64| -> Result<f64, String> { Ok((q(x + s)? - q(x - s)?) / (2.0 * s)) };
                    let s = 1e-4 * (p.range.1 - p.range.0).min(1.0);
                    let (a, b) = (d(s)?, d(2.0 * s)?);
                    Ok((a + (a - b) / 3.0, (a - b).abs() * 0.1 + 1e-7 * (1.0 + a.abs() + q(x)?.abs())))
                };
                let (dg, tg) = slope(&f)?;
                ensure!((dg - g(x)?).abs() <= tg, "first derivative {} instead of {dg}", g(x)?);
                let (dh, th) = slope(&g)?;
                ensure!((dh - h(x)?).abs() <= th, "second derivative {} instead of {dh}", h(x)?);
                Ok(())
            });
        }
    });
}

pub fn explore(run: &mut Run) {
    run.level("exploration", "every combination of values, tolerances, lengths, shapes and positions of a deviation within the bounds, judged by the definition of agreement");
    run.assume("tolerances are numbers; derivatives of polynomials of degree three; deviations within ten per cent of the tolerance are not judged for numerical derivatives");
    scalars(run);
    arrays(run);
    matrices(run);
    larger(run);
    derivatives(run);
    functions(run);
}
