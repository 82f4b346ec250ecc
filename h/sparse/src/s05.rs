//! S05: sparse numerical Jacobian

use crate::s01::{allowed, SYMS};
use mc::*;
use russell_lab::Vector;
use russell_sparse::prelude::*;

/// System with symmetric Jacobian: gradient of a polynomial, f_i = sum_j c_ij y_j + y_i^3 + x * y_i * s
struct System {
    n: usize,
    linear: Vec<Vec<f64>>,
    cubic: f64,
    cross: f64,
}

impl System {
    fn value(&self, f: &mut Vector, x: f64, y: &Vector) {
        let s: f64 = (0..self.n).map(|j| y[j] * y[j]).sum();
        for i in 0..self.n {
            f[i] = 3.0 + self.cubic * y[i] * y[i] * y[i] + (self.cross * s + x) * y[i];
            for j in 0..self.n {
                f[i] += self.linear[i][j] * y[j];
            }
        }
    }
    fn jacobian(&self, x: f64, y: &[f64], i: usize, j: usize) -> f64 {
        let s: f64 = y.iter().map(|v| v * v).sum();
        let mut r = self.linear[i][j] + 2.0 * self.cross * y[i] * y[j];
        if i == j {
            r += 3.0 * self.cubic * y[i] * y[i] + self.cross * s + x;
        }
        r
    }
}

const POINTS: [[f64; 4]; 9] = [
    [0.0, 0.0, 0.0, 0.0],
    [1.0, -2.0, 0.5, 3.0],
    [1e-3, -1e-5, 1e-8, -1e-300],
    [-1.0, -1.0, 2.0, -7.0],
    [20.0, -30.0, 1e-9, 0.1],
    [0.3, 1e3, -1e-2, -0.1],
    [1e-13 / 3.0, -1e-14 / 7.0, 1.0 - 1e-9 / 3.0, -1e-12 / 3.0],
    [-1e-11 / 3.0, 2.0 - 1e-9 / 7.0, -4.0 - 1e-9 / 3.0, 5e-324],
    [0.1, -1.0 / 3.0, -1e-10 / 7.0, 8.0 - 1e-9 / 3.0],
];

const SEEN: [f64; 3] = [1.0, -2.5, 0.0];

pub fn explore(run: &mut Run) {
    run.level(
        "fault_enumeration",
        "all systems of a family (linear patterns, cubic and cross terms) x points x factors x symmetric storages x surplus sizes; every failing call index; call histories reusing one matrix",
    );
    run.assume("forward differences with increments near 1.5e-8 relative; the tolerance scales with the second derivative and the rounding of the function");
    let max = run.pick(6, 10);
    let mut work = Vec::new();
    for n in (1..=max).chain([16, 33, 65]) {
        for sym in SYMS {
            for c in 0..4 {
                work.push((n, sym, c));
            }
        }
    }
    run.section("values and faults", work.len(), |ctx, w| {
        let (n, sym, c) = work[w];
        // linear patterns: symmetric ones unless no symmetry is declared
        let npat = if n <= 3 { pow(2, if sym == Sym::No { n * n } else { n * (n + 1) / 2 }) } else { 64 };
        let large = n > max;
        for pat in if large { 45..46 } else { 0..npat } {
            let mut linear = vec![vec![0.0; n]; n];
            let mut k = 0;
            for i in 0..n {
                for j in 0..(if sym == Sym::No { n } else { i + 1 }) {
                    if pat >> (if n <= 3 { k } else { k % 6 }) & 1 == 1 {
                        linear[i][j] = (1 + if large { k % 11 } else { k }) as f64 * if k % 2 == 0 { 1.0 } else { -0.5 };
                        if sym != Sym::No {
                            linear[j][i] = linear[i][j];
                        }
                    }
                    k += 1;
                }
            }
            let sys = System { n, linear, cubic: [0.0, 1.0, -0.5, 0.0][c], cross: [0.0, 0.0, 0.25, 1.0][c] };
            for (ip, p) in POINTS.iter().enumerate() {
                // the points repeat with other magnitudes
                let p: Vec<f64> = (0..n).map(|k| p[k % 4] * [1.0, -0.5, 4.0][k / 4 % 3]).collect();
                for x in [0.0, -1.75] {
                    for extra in [0, 2] {
                        ctx.case(format!("n={} {:?} sys={} pattern={} point={} x={} extra={}", n, sym, c, pat, ip, x, extra), |t| {
                            let dim = n + extra;
                            let max_nnz = if sym == Sym::YesLower || sym == Sym::YesUpper { (n + n * n) / 2 } else { n * n } + extra;
                            let mut jj = CooMatrix::new(dim, dim, max_nnz, sym)?;
                            let (mut y, mut w1, mut w2) = (Vector::new(dim), Vector::new(dim), Vector::new(dim));
                            for k in 0..dim {
                                y[k] = if k < n { p[k] } else { 77.0 };
                            }
                            let y0 = y.clone();
                            let mut reference: Option<Vec<f64>> = None;
                            // history: success, then a fault at every call, each followed by success, on the same objects
                            let faults: Vec<usize> = if large { vec![0, 1, n / 2, n] } else { (0..=n).collect() };
                            for step in 0..2 * faults.len() + 1 {
                                let fault = if step % 2 == 1 { Some(faults[step / 2]) } else { None };
                                let alpha = SEEN[0];
                                let mut calls = 0;
                                let mut bad = None;
                                let r = numerical_jacobian(&mut jj, n, alpha, x, &mut y, &mut w1, &mut w2, &mut 13, |f, xx, yy, arg: &mut i32| {
                                    if xx != x || *arg != 13 {
                                        bad = Some("x or the extra argument is not passed on");
                                    }
                                    let call = calls;
                                    calls += 1;
                                    if Some(call) == fault {
                                        f.fill(f64::NAN);
                                        return Err("user failure");
                                    }
                                    sys.value(f, xx, yy);
                                    Ok(())
                                });
                                t.op();
                                ensure!(bad.is_none(), "{}", bad.unwrap());
                                for k in 0..dim {
                                    ensure!(y[k].to_bits() == y0[k].to_bits(), "step {}: y[{}] is not restored (fault {:?})", step, k, fault);
                                }
                                match fault {
                                    Some(k) => {
                                        ensure!(r == Err("user failure"), "failure at call {} gives {:?}", k, r);
                                        ensure!(calls == k + 1, "function called again after it failed");
                                    }
                                    None => {
                                        r?;
                                        let d = jj.as_dense();
                                        for i in 0..dim {
                                            for j in 0..dim {
                                                let a = d.get(i, j);
                                                if i >= n || j >= n {
                                                    ensure!(a == 0.0, "entry outside");
                                                    continue;
                                                }
                                                let jc = if sym == Sym::YesLower { i.min(j) } else if sym == Sym::YesUpper { i.max(j) } else { j };
                                                let h = f64::sqrt(f64::EPSILON * f64::max(1e-5, f64::abs(p[jc])));
                                                // scale of the function and of its second derivatives
                                                let big: f64 = p[..n].iter().fold(1.0, |m, v| f64::max(m, f64::abs(*v)));
                                                let f_scale = f64::max(1.0, n as f64 / 6.0) * (30.0 * big + 4.0 * (sys.cubic.abs() + sys.cross.abs()) * big * big * big);
                                                let second = 10.0 * (sys.cubic.abs() + sys.cross.abs()) * (big + 1.0);
                                                let b = sys.jacobian(x, &p[..n], i, j);
                                                let tol = 20.0 * f64::EPSILON * f_scale / h + second * h + (1e-9 + 4.0 * f64::EPSILON * f64::abs(p[jc]) / h) * (1.0 + f64::abs(b)) + 2.0 * h * h;
                                                ensure!(f64::abs(a - alpha * b) <= tol, "J[{}][{}] = {} instead of {} (tolerance {:e})", i, j, a, b, tol);
                                            }
                                        }
                                        for q in 0..jj.get_nnz() {
                                            ensure!(allowed(sym, jj.get_row_indices()[q] as usize, jj.get_col_indices()[q] as usize), "entry in the wrong triangle");
                                        }
                                        // same result at every repetition
                                        let data = d.as_data().clone();
                                        if let Some(r) = &reference {
                                            ensure!(*r == data, "result differs after a failed call");
                                        } else {
                                            reference = Some(data);
                                        }
                                    }
                                }
                            }
                            // the factor scales the result
                            let base = reference.unwrap();
                            for alpha in SEEN {
                                t.op();
                                numerical_jacobian(&mut jj, n, alpha, x, &mut y, &mut w1, &mut w2, &mut 0, |f, xx, yy, _| {
                                    sys.value(f, xx, yy);
                                    Ok(())
                                })?;
                                let d = jj.as_dense();
                                for (a, b) in d.as_data().iter().zip(&base) {
                                    ensure!(rel(*a, alpha * b, 1e-13) || f64::abs(a - alpha * b) < 1e-300, "factor {}: {} instead of {}", alpha, a, alpha * b);
                                }
                            }
                            t.state(&(n, sym as usize, c, pat, ip, x.to_bits(), extra));
                            Ok(())
                        });
                    }
                }
            }
        }
    });
    // sizes: every deficit is reported
    run.section("sizes", 3 * 4, |ctx, w| {
        let (n, sym) = (1 + w / 4, SYMS[w % 4]);
        for which in 0..6 {
            ctx.case(format!("n={} {:?} deficit={}", n, sym, which), |t| {
                t.op();
                let need = if sym == Sym::YesLower || sym == Sym::YesUpper { (n + n * n) / 2 } else { n * n };
                let small = |k: usize, size: usize| if which == k { size - 1 } else { size };
                let mut d = (n, n, need);
                if which == 0 || which == 1 {
                    if n == 1 || (sym != Sym::No) {
                        return Ok(()); // cannot be built
                    }
                    d = if which == 0 { (n - 1, n, need) } else { (n, n - 1, need) };
                }
                if which == 2 {
                    if need == 1 {
                        return Ok(());
                    }
                    d.2 -= 1;
                }
                let mut jj = CooMatrix::new(d.0, d.1, d.2, sym)?;
                let (mut y, mut w1, mut w2) = (Vector::filled(small(3, n), 2.0), Vector::new(small(4, n)), Vector::new(small(5, n)));
                let mut calls = 0;
                let r = guarded(|| {
                    numerical_jacobian(&mut jj, n, 1.0, 0.0, &mut y, &mut w1, &mut w2, &mut 0, |_, _, _, _| {
                        calls += 1;
                        Ok(())
                    })
                })?;
                ensure!(r.is_err(), "deficit {} not reported", which);
                ensure!(y.as_data().iter().all(|v| *v == 2.0), "y changed");
                t.state(&(w, which));
                Ok(())
            });
        }
    });
}
