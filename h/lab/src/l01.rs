//! L01: dense kernels versus textbook loops, all shapes up to a bound, exact (integer-valued) data

use mc::*;
use russell_lab::*;
use std::fmt::Debug;
use std::ops::{Add, Mul, Sub};

thread_local! {
    static PAT: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
}

const N_PAT: usize = 4;

/// Selects the filling of the operands and returns the remaining index
fn pattern(ctx: &mut Ctx, index: usize) -> usize {
    let pat = index % N_PAT;
    PAT.with(|p| p.set(pat));
    ctx.tag(format!("filling={} ", pat));
    index / N_PAT
}

/// All sizes up to a bound, then sizes at and around round numbers
fn with_ladder(nmax: usize, top: usize) -> Vec<usize> {
    let mut sizes: Vec<usize> = (0..=nmax).collect();
    for base in [64, 100, 128, 200, 256, 500, 512, 1000, 1024, 2048, 4096] {
        sizes.extend([base - 1, base, base + 1].iter().filter(|n| **n > nmax && **n <= top));
    }
    sizes
}

/// Larger extents for the products, and larger shapes
const LARGE: [usize; 5] = [1, 32, 65, 100, 129];
const LARGE_SHAPES: [(usize, usize); 12] = [(1, 300), (300, 1), (2, 129), (129, 2), (32, 32), (33, 31), (50, 50), (64, 64), (65, 63), (100, 17), (128, 128), (130, 127)];

/// Fixed, position dependent integers: 0: non-zero in [-40,40]; 1: same with many zeros; 2: -1,0,1; 3: positive
pub fn ival(seed: usize, i: usize, j: usize) -> i64 {
    let v = ival0(seed, i, j);
    match PAT.with(|p| p.get()) {
        0 => v,
        1 => {
            if ival0(seed + 1000, i, j) > 0 {
                0
            } else {
                v
            }
        }
        2 => v.rem_euclid(3) - 1,
        _ => v.abs() * 16,
    }
}

fn ival0(seed: usize, i: usize, j: usize) -> i64 {
    let mut h = (seed as u64).wrapping_mul(0x9E3779B97F4A7C15) ^ (i as u64).wrapping_mul(0xC2B2AE3D27D4EB4F) ^ (j as u64).wrapping_mul(0x165667B19E3779F9);
    h ^= h >> 29;
    h = h.wrapping_mul(0xBF58476D1CE4E5B9);
    h ^= h >> 32;
    let v = (h % 81) as i64 - 40;
    if v == 0 {
        7
    } else {
        v
    }
}

pub trait Sc: Copy + PartialEq + Debug + Add<Output = Self> + Mul<Output = Self> + Sub<Output = Self> + Send + Sync + 'static {
    fn mk(re: f64, im: f64) -> Self;
    fn name() -> &'static str;
    fn factors() -> Vec<Self>;
}

impl Sc for f64 {
    fn mk(re: f64, _im: f64) -> f64 {
        re
    }
    fn name() -> &'static str {
        "real"
    }
    fn factors() -> Vec<f64> {
        vec![0.0, 1.0, -1.0, 2.0, -0.5]
    }
}

impl Sc for Complex64 {
    fn mk(re: f64, im: f64) -> Complex64 {
        Complex64::new(re, im)
    }
    fn name() -> &'static str {
        "complex"
    }
    fn factors() -> Vec<Complex64> {
        vec![cpx!(0.0, 0.0), cpx!(1.0, 0.0), cpx!(-1.0, 0.0), cpx!(0.0, 1.0), cpx!(2.0, -3.0)]
    }
}

macro_rules! common {
    ($modname:ident, $T:ty, $V:ty, $M:ty, $vec_add:ident, $vec_plus:ident, $vec_minus:ident, $vec_copy:ident, $vec_scale:ident, $vec_update:ident,
     $mat_add:ident, $mat_plus:ident, $mat_minus:ident, $mat_copy:ident, $mat_scale:ident, $mat_update:ident,
     $mat_vec_mul:ident, $vec_mat_mul:ident, $mat_mat_mul:ident, $mat_t_mat_mul:ident, $sym_rank:ident) => {
        mod $modname {
            use super::*;
            type T = $T;

            fn v(seed: usize, n: usize) -> $V {
                <$V>::initialized(n, |i| T::mk(ival(seed, i, 0) as f64, ival(seed + 77, i, 1) as f64))
            }
            fn m(seed: usize, r: usize, c: usize) -> $M {
                <$M>::initialized(r, c, |i, j| T::mk(ival(seed, i, j) as f64, ival(seed + 55, i, j) as f64))
            }
            fn veq(name: &str, got: &$V, want: &dyn Fn(usize) -> T, n: usize) -> Outcome {
                ensure!(got.dim() == n, "{}: dimension {} instead of {}", name, got.dim(), n);
                for i in 0..n {
                    ensure!(got[i] == want(i), "{}: component {} is {:?} instead of {:?}", name, i, got[i], want(i));
                }
                Ok(())
            }
            fn meq(name: &str, got: &$M, want: &dyn Fn(usize, usize) -> T, r: usize, c: usize) -> Outcome {
                ensure!(got.dims() == (r, c), "{}: wrong dims", name);
                for i in 0..r {
                    for j in 0..c {
                        ensure!(got.get(i, j) == want(i, j), "{}: component ({},{}) is {:?} instead of {:?}", name, i, j, got.get(i, j), want(i, j));
                    }
                }
                Ok(())
            }

            pub fn explore(run: &mut Run) {
                let nn = T::name();
                let sizes = with_ladder(run.pick(70, 260), 4100);
                run.section(&format!("{}-vectors", nn), sizes.len() * N_PAT, |ctx, idx| {
                    let n = sizes[pattern(ctx, idx)];
                    let (u0, v0, w0) = (v(1, n), v(2, n), v(3, n));
                    for alpha in T::factors() {
                        for beta in T::factors() {
                            ctx.case(format!("add n={} alpha={:?} beta={:?}", n, alpha, beta), |t| {
                                t.op();
                                let mut w = w0.clone();
                                let (u, vv) = (u0.clone(), v0.clone());
                                $vec_add(&mut w, alpha, &u, beta, &vv)?;
                                veq("w", &w, &|i| alpha * u0[i] + beta * v0[i], n)?;
                                veq("u", &u, &|i| u0[i], n)?;
                                veq("v", &vv, &|i| v0[i], n)
                            });
                        }
                        ctx.case(format!("scale-update n={} alpha={:?}", n, alpha), |t| {
                            t.ops(2);
                            let mut w = w0.clone();
                            $vec_scale(&mut w, alpha);
                            veq("scale", &w, &|i| alpha * w0[i], n)?;
                            let mut w = w0.clone();
                            let u = u0.clone();
                            $vec_update(&mut w, alpha, &u)?;
                            veq("update", &w, &|i| w0[i] + alpha * u0[i], n)?;
                            veq("u", &u, &|i| u0[i], n)
                        });
                    }
                    ctx.case(format!("plus-minus-copy n={}", n), |t| {
                        t.ops(3);
                        let (u, vv) = (u0.clone(), v0.clone());
                        let mut w = w0.clone();
                        $vec_plus(&mut w, &u, &vv)?;
                        veq("plus", &w, &|i| u0[i] + v0[i], n)?;
                        let mut w = w0.clone();
                        $vec_minus(&mut w, &u, &vv)?;
                        veq("minus", &w, &|i| u0[i] - v0[i], n)?;
                        let mut w = w0.clone();
                        $vec_copy(&mut w, &u)?;
                        veq("copy", &w, &|i| u0[i], n)?;
                        veq("u", &u, &|i| u0[i], n)?;
                        veq("v", &vv, &|i| v0[i], n)
                    });
                });
                // incompatible dimensions
                run.section(&format!("{}-vector-dims", nn), 1, |ctx, _| {
                    let dims = [0, 1, 2, 3, 5, 16, 17, 18];
                    let one = T::mk(1.0, 0.0);
                    for &a in &dims {
                        for &b in &dims {
                            for &c in &dims {
                                ctx.case(format!("w={} u={} v={}", a, b, c), |t| {
                                    t.ops(6);
                                    let ok3 = a == b && b == c;
                                    let ok2 = a == b;
                                    let (u, vv) = (v(1, b), v(2, c));
                                    let w0 = v(3, a);
                                    let chk = |name: &str, res: Result<(), StrError>, ok: bool, w: &$V| -> Outcome {
                                        ensure!(res.is_ok() == ok, "{}: result {:?} but compatibility is {}", name, res, ok);
                                        ensure!(w.dim() == a, "{}: dimension changed", name);
                                        if !ok {
                                            veq(name, w, &|i| w0[i], a)?;
                                        }
                                        Ok(())
                                    };
                                    let mut w = w0.clone();
                                    let r = $vec_add(&mut w, one, &u, one, &vv);
                                    chk("add", r, ok3, &w)?;
                                    let mut w = w0.clone();
                                    let r = $vec_plus(&mut w, &u, &vv);
                                    chk("plus", r, ok3, &w)?;
                                    let mut w = w0.clone();
                                    let r = $vec_minus(&mut w, &u, &vv);
                                    chk("minus", r, ok3, &w)?;
                                    let mut w = w0.clone();
                                    let r = $vec_copy(&mut w, &u);
                                    chk("copy", r, ok2, &w)?;
                                    let mut w = w0.clone();
                                    let r = $vec_update(&mut w, one, &u);
                                    chk("update", r, ok2, &w)
                                });
                            }
                        }
                    }
                });
                // element-wise matrix kernels
                let mut shapes = shapes(run.pick(18, 40), true);
                shapes.extend(LARGE_SHAPES);
                run.section(&format!("{}-matrices", nn), shapes.len() * N_PAT, |ctx, idx| {
                    let is = pattern(ctx, idx);
                    let (r, c) = shapes[is];
                    let (a0, b0, c0) = (m(1, r, c), m(2, r, c), m(3, r, c));
                    for alpha in T::factors() {
                        for beta in T::factors() {
                            ctx.case(format!("add {}x{} alpha={:?} beta={:?}", r, c, alpha, beta), |t| {
                                t.op();
                                let (a, b) = (a0.clone(), b0.clone());
                                let mut w = c0.clone();
                                $mat_add(&mut w, alpha, &a, beta, &b)?;
                                meq("add", &w, &|i, j| alpha * a0.get(i, j) + beta * b0.get(i, j), r, c)?;
                                meq("a", &a, &|i, j| a0.get(i, j), r, c)?;
                                meq("b", &b, &|i, j| b0.get(i, j), r, c)
                            });
                        }
                        ctx.case(format!("scale-update {}x{} alpha={:?}", r, c, alpha), |t| {
                            t.ops(2);
                            let mut w = c0.clone();
                            $mat_scale(&mut w, alpha);
                            meq("scale", &w, &|i, j| alpha * c0.get(i, j), r, c)?;
                            let mut w = c0.clone();
                            let a = a0.clone();
                            $mat_update(&mut w, alpha, &a)?;
                            meq("update", &w, &|i, j| c0.get(i, j) + alpha * a0.get(i, j), r, c)?;
                            meq("a", &a, &|i, j| a0.get(i, j), r, c)
                        });
                        ctx.case(format!("mat-vec {}x{} alpha={:?}", r, c, alpha), |t| {
                            t.ops(2);
                            let x0 = v(4, c);
                            let y0 = v(5, r);
                            let (a, x, y) = (a0.clone(), x0.clone(), y0.clone());
                            let mut res = v(6, r);
                            $mat_vec_mul(&mut res, alpha, &a, &x)?;
                            veq("mat_vec", &res, &|i| alpha * (0..c).fold(T::mk(0.0, 0.0), |s, k| s + a0.get(i, k) * x0[k]), r)?;
                            let mut res = v(7, c);
                            $vec_mat_mul(&mut res, alpha, &y, &a)?;
                            veq("vec_mat", &res, &|j| alpha * (0..r).fold(T::mk(0.0, 0.0), |s, k| s + y0[k] * a0.get(k, j)), c)?;
                            veq("x", &x, &|i| x0[i], c)?;
                            veq("y", &y, &|i| y0[i], r)?;
                            meq("a", &a, &|i, j| a0.get(i, j), r, c)
                        });
                    }
                    ctx.case(format!("plus-minus-copy {}x{}", r, c), |t| {
                        t.ops(3);
                        let (a, b) = (a0.clone(), b0.clone());
                        let mut w = c0.clone();
                        $mat_plus(&mut w, &a, &b)?;
                        meq("plus", &w, &|i, j| a0.get(i, j) + b0.get(i, j), r, c)?;
                        let mut w = c0.clone();
                        $mat_minus(&mut w, &a, &b)?;
                        meq("minus", &w, &|i, j| a0.get(i, j) - b0.get(i, j), r, c)?;
                        let mut w = c0.clone();
                        $mat_copy(&mut w, &a)?;
                        meq("copy", &w, &|i, j| a0.get(i, j), r, c)?;
                        meq("a", &a, &|i, j| a0.get(i, j), r, c)?;
                        meq("b", &b, &|i, j| b0.get(i, j), r, c)
                    });
                });
                // products
                let ext: Vec<usize> = if run.thorough() { vec![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 18, 31, 33] } else { vec![0, 1, 2, 3, 4, 5, 8, 9, 16, 17] };
                let ne = ext.len();
                let nl = LARGE.len();
                run.section(&format!("{}-products", nn), (ne * ne * ne + nl * nl * nl) * N_PAT, |ctx, idx| {
                    let idx = pattern(ctx, idx);
                    let (list, d) = if idx < ne * ne * ne { (&ext[..], digits(idx, ne, 3)) } else { (&LARGE[..], digits(idx - ne * ne * ne, nl, 3)) };
                    let (r, k, c) = (list[d[0]], list[d[1]], list[d[2]]);
                    let (a0, at0, b0, c0) = (m(1, r, k), m(8, k, r), m(2, k, c), m(3, r, c));
                    let prod: Vec<T> = (0..r * c).map(|p| (0..k).fold(T::mk(0.0, 0.0), |s, l| s + a0.get(p / c, l) * b0.get(l, p % c))).collect();
                    let prodt: Vec<T> = (0..r * c).map(|p| (0..k).fold(T::mk(0.0, 0.0), |s, l| s + at0.get(l, p / c) * b0.get(l, p % c))).collect();
                    for alpha in T::factors() {
                        for beta in T::factors() {
                            ctx.case(format!("m={} k={} n={} alpha={:?} beta={:?}", r, k, c, alpha, beta), |t| {
                                t.ops(2);
                                let (a, at, b) = (a0.clone(), at0.clone(), b0.clone());
                                let mut w = c0.clone();
                                $mat_mat_mul(&mut w, alpha, &a, &b, beta)?;
                                meq("a*b", &w, &|i, j| alpha * prod[i * c + j] + beta * c0.get(i, j), r, c)?;
                                let mut w = c0.clone();
                                $mat_t_mat_mul(&mut w, alpha, &at, &b, beta)?;
                                meq("at*b", &w, &|i, j| alpha * prodt[i * c + j] + beta * c0.get(i, j), r, c)?;
                                meq("a", &a, &|i, j| a0.get(i, j), r, k)?;
                                meq("at", &at, &|i, j| at0.get(i, j), k, r)?;
                                meq("b", &b, &|i, j| b0.get(i, j), k, c)
                            });
                        }
                    }
                });
                // symmetric rank-k (the other triangle must not be touched)
                run.section(&format!("{}-sym-rank", nn), (ne * ne + nl * nl) * N_PAT, |ctx, idx| {
                    let idx = pattern(ctx, idx);
                    let (n, k) = if idx < ne * ne { (ext[idx / ne], ext[idx % ne]) } else { (LARGE[(idx - ne * ne) / nl], LARGE[(idx - ne * ne) % nl]) };
                    for second in [false, true] {
                        let a0 = if second { m(1, k, n) } else { m(1, n, k) };
                        let prod: Vec<T> = (0..n * n)
                            .map(|p| {
                                (0..k).fold(T::mk(0.0, 0.0), |s, l| {
                                    s + if second { a0.get(l, p / n) * a0.get(l, p % n) } else { a0.get(p / n, l) * a0.get(p % n, l) }
                                })
                            })
                            .collect();
                        let c0 = <$M>::initialized(n, n, |i, j| T::mk(ival(3, i.min(j), i.max(j)) as f64, ival(4, i.min(j), i.max(j)) as f64));
                        for upper in [false, true] {
                            for alpha in T::factors() {
                                for beta in T::factors() {
                                    ctx.case(format!("n={} k={} second={} upper={} alpha={:?} beta={:?}", n, k, second, upper, alpha, beta), |t| {
                                        t.op();
                                        let a = a0.clone();
                                        let mut w = c0.clone();
                                        $sym_rank(&mut w, &a, alpha, beta, upper, second)?;
                                        meq(
                                            "c",
                                            &w,
                                            &|i, j| if (upper && i <= j) || (!upper && i >= j) { alpha * prod[i * n + j] + beta * c0.get(i, j) } else { c0.get(i, j) },
                                            n,
                                            n,
                                        )?;
                                        meq("a", &a, &|i, j| a0.get(i, j), a0.nrow(), a0.ncol())
                                    });
                                }
                            }
                        }
                    }
                });
                // incompatible matrix dimensions: every shape combination from a small set
                run.section(&format!("{}-matrix-dims", nn), 27, |ctx, idx| {
                    let sh: Vec<(usize, usize)> = vec![(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3), (0, 2), (2, 0)];
                    if idx >= 9 {
                        return;
                    }
                    let one = T::mk(1.0, 0.0);
                    let (r, c) = sh[idx];
                    let w0 = m(3, r, c);
                    for &(ar, ac) in &sh {
                        for &(br, bc) in &sh {
                            ctx.case(format!("c={}x{} a={}x{} b={}x{}", r, c, ar, ac, br, bc), |t| {
                                t.ops(9);
                                let (a, b) = (m(1, ar, ac), m(2, br, bc));
                                let chk = |name: &str, res: Result<(), StrError>, ok: bool, w: &$M| -> Outcome {
                                    ensure!(res.is_ok() == ok, "{}: result {:?} but compatibility is {}", name, res, ok);
                                    if !ok {
                                        meq(name, w, &|i, j| w0.get(i, j), r, c)?;
                                    }
                                    Ok(())
                                };
                                let same2 = (ar, ac) == (r, c);
                                let same3 = same2 && (br, bc) == (r, c);
                                let mut w = w0.clone();
                                let res = $mat_add(&mut w, one, &a, one, &b);
                                chk("add", res, same3, &w)?;
                                let mut w = w0.clone();
                                let res = $mat_plus(&mut w, &a, &b);
                                chk("plus", res, same3, &w)?;
                                let mut w = w0.clone();
                                let res = $mat_minus(&mut w, &a, &b);
                                chk("minus", res, same3, &w)?;
                                let mut w = w0.clone();
                                let res = $mat_copy(&mut w, &a);
                                chk("copy", res, same2, &w)?;
                                let mut w = w0.clone();
                                let res = $mat_update(&mut w, one, &a);
                                chk("update", res, same2, &w)?;
                                let mut w = w0.clone();
                                let res = $mat_mat_mul(&mut w, one, &a, &b, one);
                                chk("mul", res, ar == r && ac == br && bc == c, &w)?;
                                let mut w = w0.clone();
                                let res = $mat_t_mat_mul(&mut w, one, &a, &b, one);
                                chk("tmul", res, ac == r && ar == br && bc == c, &w)?;
                                if (br, bc) == sh[0] {
                                    let mut w = w0.clone();
                                    let res = $sym_rank(&mut w, &a, one, one, true, false);
                                    chk("rank1", res, r == c && ar == r, &w)?;
                                    let mut w = w0.clone();
                                    let res = $sym_rank(&mut w, &a, one, one, true, true);
                                    chk("rank2", res, r == c && ac == r, &w)?;
                                }
                                if (ar, ac) == (r, c) {
                                    // vectors of dims br and bc
                                    let (x, y0) = (v(1, br), v(2, bc));
                                    let mut y = y0.clone();
                                    let res = $mat_vec_mul(&mut y, one, &a, &x);
                                    let ok = bc == ar && br == ac;
                                    ensure!(res.is_ok() == ok, "mat_vec: {:?} vs {}", res, ok);
                                    if !ok {
                                        veq("mat_vec", &y, &|i| y0[i], bc)?;
                                    }
                                    let mut y = y0.clone();
                                    let res = $vec_mat_mul(&mut y, one, &x, &a);
                                    let ok = bc == ac && br == ar;
                                    ensure!(res.is_ok() == ok, "vec_mat: {:?} vs {}", res, ok);
                                    if !ok {
                                        veq("vec_mat", &y, &|i| y0[i], bc)?;
                                    }
                                }
                                Ok(())
                            });
                        }
                    }
                });
            }
        }
    };
}

common!(
    real, f64, Vector, Matrix, vec_add, vec_plus, vec_minus, vec_copy, vec_scale, vec_update, mat_add, mat_plus, mat_minus, mat_copy, mat_scale,
    mat_update, mat_vec_mul, vec_mat_mul, mat_mat_mul, mat_t_mat_mul, mat_sym_rank_op
);
common!(
    cmplx, Complex64, ComplexVector, ComplexMatrix, complex_vec_add, complex_vec_plus, complex_vec_minus, complex_vec_copy, complex_vec_scale,
    complex_vec_update, complex_mat_add, complex_mat_plus, complex_mat_minus, complex_mat_copy, complex_mat_scale, complex_mat_update,
    complex_mat_vec_mul, complex_vec_mat_mul, complex_mat_mat_mul, complex_mat_t_mat_mul, complex_mat_sym_rank_op
);

fn shapes(max: usize, more: bool) -> Vec<(usize, usize)> {
    let mut s = Vec::new();
    for r in 0..=max {
        for c in 0..=max {
            s.push((r, c));
        }
    }
    for k in [15, 16, 17, 18, 19, 20, 21, 33] {
        s.push((1, k));
        s.push((k, 1));
        s.push((3, k));
        s.push((k, 5));
    }
    if more {
        for k in [32, 63, 64, 65, 127] {
            s.push((k, k));
            s.push((k, 2));
            s.push((2, k));
        }
    }
    s
}

fn rv(seed: usize, n: usize) -> Vector {
    Vector::initialized(n, |i| ival(seed, i, 0) as f64)
}
fn rm(seed: usize, r: usize, c: usize) -> Matrix {
    Matrix::initialized(r, c, |i, j| ival(seed, i, j) as f64)
}
fn cm(seed: usize, r: usize, c: usize) -> ComplexMatrix {
    ComplexMatrix::initialized(r, c, |i, j| cpx!(ival(seed, i, j) as f64, ival(seed + 55, i, j) as f64))
}
fn unchanged(name: &str, a: &Matrix, b: &Matrix) -> Outcome {
    ensure!(a.dims() == b.dims() && a.as_data() == b.as_data(), "{} was modified", name);
    Ok(())
}
fn vunchanged(name: &str, a: &Vector, b: &Vector) -> Outcome {
    ensure!(a.as_data() == b.as_data(), "{} was modified", name);
    Ok(())
}

const NORMS: [Norm; 5] = [Norm::Euc, Norm::Fro, Norm::Inf, Norm::Max, Norm::One];

fn ref_norm(v: &[f64], kind: Norm) -> f64 {
    match kind {
        Norm::Euc | Norm::Fro => v.iter().map(|x| x * x).sum::<f64>().sqrt(),
        Norm::Inf | Norm::Max => v.iter().fold(0.0, |m: f64, x| m.max(x.abs())),
        Norm::One => v.iter().map(|x| x.abs()).sum(),
    }
}

fn ref_mat_norm(r: usize, c: usize, a: &dyn Fn(usize, usize) -> f64, kind: Norm) -> f64 {
    let mut res: f64 = 0.0;
    match kind {
        Norm::Euc | Norm::Fro => {
            for i in 0..r {
                for j in 0..c {
                    res += a(i, j) * a(i, j);
                }
            }
            res.sqrt()
        }
        Norm::Max => {
            for i in 0..r {
                for j in 0..c {
                    res = res.max(a(i, j));
                }
            }
            res
        }
        Norm::Inf => {
            for i in 0..r {
                res = res.max((0..c).map(|j| a(i, j)).sum());
            }
            res
        }
        Norm::One => {
            for j in 0..c {
                res = res.max((0..r).map(|i| a(i, j)).sum());
            }
            res
        }
    }
}

fn reductions(run: &mut Run) {
    let sizes = with_ladder(run.pick(70, 260), 520);
    run.section("vector-reductions", sizes.len() * N_PAT, |ctx, idx| {
        let n = sizes[pattern(ctx, idx)];
        // inner product over both lengths
        for k in [n.saturating_sub(1), n, n + 1, 2 * n] {
            ctx.case(format!("inner {}x{}", n, k), |t| {
                t.op();
                let (u, v) = (rv(1, n), rv(2, k));
                let s: f64 = (0..n.min(k)).map(|i| u[i] * v[i]).sum();
                let got = vec_inner(&u, &v);
                ensure!(got == s, "inner {} instead of {}", got, s);
                vunchanged("u", &u, &rv(1, n))?;
                vunchanged("v", &v, &rv(2, k))
            });
        }
        // extreme element at every position, with either sign; all chunks
        for pos in 0..n.max(1) {
            for sign in [1.0, -1.0] {
                ctx.case(format!("norms n={} pos={} sign={}", n, pos, sign), |t| {
                    let mut v = rv(3, n);
                    if n > 0 {
                        v[pos] = sign * 1000.0;
                    }
                    let z = ComplexVector::initialized(n, |i| cpx!(3.0 * v[i], 4.0 * v[i]));
                    for kind in NORMS {
                        t.ops(2);
                        let want = ref_norm(v.as_data(), kind);
                        let got = vec_norm(&v, kind);
                        ensure!(close(got, want, 1e-13), "norm {:?} = {} instead of {}", kind, got, want);
                        let got = complex_vec_norm(&z, kind);
                        ensure!(close(got, 5.0 * want, 1e-13), "complex norm {:?} = {} instead of {}", kind, got, 5.0 * want);
                    }
                    // differences
                    let u = rv(4, n);
                    let d: Vec<f64> = (0..n).map(|i| u[i] - v[i]).collect();
                    for kind in NORMS {
                        t.op();
                        let got = vec_norm_diff(&u, &v, kind);
                        let want = ref_norm(&d, kind);
                        ensure!(close(got, want, 1e-13), "norm_diff {:?} = {} instead of {}", kind, got, want);
                    }
                    t.ops(5);
                    let (i, m) = vec_max_abs_diff(&u, &v)?;
                    let want = ref_norm(&d, Norm::Max);
                    ensure!(m == want && (n == 0 || d[i].abs() == want), "max_abs_diff ({},{}) instead of {}", i, m, want);
                    let s = rv(5, n);
                    let want = (0..n).fold(0.0, |w: f64, i| w.max(d[i].abs() / (1.0 + s[i].abs())));
                    let got = vec_max_scaled_diff(&u, &v, &s);
                    ensure!(close(got, want, 1e-13), "max_scaled_diff {} instead of {}", got, want);
                    let want = (0..n).fold(0.0, |w: f64, i| w.max(v[i].abs() / (0.25 + s[i].abs())));
                    let got = vec_max_scaled(&v, &s, 0.25);
                    ensure!(close(got, want, 1e-13), "max_scaled {} instead of {}", got, want);
                    let nf = n.max(1) as f64;
                    let want = ((0..n).map(|i| (v[i] / (0.5 + 0.125 * s[i].abs())).powi(2)).sum::<f64>() / nf).sqrt();
                    let got = vec_rms_scaled(&v, &s, 0.5, 0.125);
                    ensure!(close(got, want, 1e-13), "rms_scaled {} instead of {}", got, want);
                    let want = ((0..n).map(|i| (d[i] / (0.5 + 0.125 * u[i].abs().max(v[i].abs()))).powi(2)).sum::<f64>() / nf).sqrt();
                    let got = vec_rms_scaled_diff(&u, &v, 0.5, 0.125);
                    ensure!(close(got, want, 1e-13), "rms_scaled_diff {} instead of {}", got, want);
                    Ok(())
                });
            }
        }
        for a in 0..n {
            for b in a + 1..=n {
                if n > 24 && !(a < 3 || b + 3 > n) {
                    continue;
                }
                ctx.case(format!("chunk n={} {}..{}", n, a, b), |t| {
                    let v = rv(3, n);
                    for kind in NORMS {
                        t.op();
                        let want = ref_norm(&v.as_data()[a..b], kind);
                        let got = vec_norm_chunk(&v, kind, a, b);
                        ensure!(close(got, want, 1e-13), "chunk norm {:?} = {} instead of {}", kind, got, want);
                    }
                    Ok(())
                });
            }
        }
        // finiteness
        for pos in 0..=n {
            for bad in [f64::NAN, f64::INFINITY, f64::NEG_INFINITY] {
                ctx.case(format!("finite n={} pos={} {}", n, pos, bad), |t| {
                    t.op();
                    let mut v = rv(3, n);
                    if pos < n {
                        v[pos] = bad;
                    }
                    let got = vec_all_finite(&v, false);
                    ensure!(got.is_ok() == (pos == n), "all_finite {:?}", got);
                    Ok(())
                });
            }
        }
        // a NaN is never hidden by a norm or by the largest difference
        for pos in 0..n {
            ctx.case(format!("nan n={} pos={}", n, pos), |t| {
                let mut v = rv(3, n);
                v[pos] = f64::NAN;
                for kind in NORMS {
                    t.op();
                    ensure!(vec_norm(&v, kind).is_nan(), "norm {:?} of a vector with NaN is {}", kind, vec_norm(&v, kind));
                    for (a, b) in [(0, n), (pos, n), (0, pos + 1), (pos, pos + 1)] {
                        let got = vec_norm_chunk(&v, kind, a, b);
                        ensure!(got.is_nan(), "norm {:?} of the chunk {}..{} with NaN is {}", kind, a, b, got);
                    }
                    for (re, im) in [(f64::NAN, 0.0), (0.0, f64::NAN), (f64::NAN, f64::NAN)] {
                        let mut z = ComplexVector::initialized(n, |i| cpx!(i as f64, -1.0));
                        z[pos] = cpx!(re, im);
                        let got = complex_vec_norm(&z, kind);
                        ensure!(got.is_nan(), "norm {:?} of a complex vector with NaN is {}", kind, got);
                    }
                }
                t.ops(4);
                let u = rv(1, n);
                for (a, b) in [(&u, &v), (&v, &u)] {
                    let (i, diff) = vec_max_abs_diff(a, b)?;
                    ensure!(diff.is_nan() && i == pos, "max abs diff with NaN is ({}, {})", i, diff);
                    let got = vec_max_scaled(a, b, 1.0);
                    ensure!(got.is_nan(), "max scaled with NaN is {}", got);
                    for (p, q, r) in [(a, b, &u), (&u, a, b)] {
                        let got = vec_max_scaled_diff(p, q, r);
                        ensure!(got.is_nan(), "max scaled diff with NaN is {}", got);
                    }
                }
                Ok(())
            });
        }
        // copies and (un)zipping
        for alpha in [0.0, 1.0, -2.5] {
            ctx.case(format!("copy-scaled n={} alpha={}", n, alpha), |t| {
                t.op();
                let u = rv(1, n);
                let mut v = rv(2, n);
                vec_copy_scaled(&mut v, alpha, &u)?;
                for i in 0..n {
                    ensure!(v[i] == alpha * u[i], "copy_scaled component {}", i);
                }
                vunchanged("u", &u, &rv(1, n))?;
                let mut w = rv(2, n + 1);
                ensure!(vec_copy_scaled(&mut w, alpha, &u).is_err(), "copy_scaled accepted wrong dimension");
                vunchanged("w", &w, &rv(2, n + 1))
            });
        }
        ctx.case(format!("zip n={}", n), |t| {
            t.ops(2);
            let (re, im) = (rv(1, n), rv(2, n));
            let mut z = ComplexVector::new(n);
            complex_vec_zip(&mut z, &re, &im)?;
            for i in 0..n {
                ensure!(z[i] == cpx!(re[i], im[i]), "zip component {}", i);
            }
            let (mut a, mut b) = (rv(3, n), rv(4, n));
            complex_vec_unzip(&mut a, &mut b, &z)?;
            vunchanged("real part", &a, &re)?;
            vunchanged("imaginary part", &b, &im)?;
            for (p, q, r) in [(n + 1, n, n), (n, n + 1, n), (n, n, n + 1)] {
                let mut z = ComplexVector::new(p);
                ensure!(complex_vec_zip(&mut z, &rv(1, q), &rv(2, r)).is_err(), "zip accepted wrong dims");
                let (mut a, mut b) = (rv(3, q), rv(4, r));
                ensure!(complex_vec_unzip(&mut a, &mut b, &z).is_err(), "unzip accepted wrong dims");
            }
            Ok(())
        });
    });
    let sh = shapes(run.pick(9, 16), run.thorough());
    run.section("matrix-reductions", sh.len() * N_PAT, |ctx, idx| {
        let is = pattern(ctx, idx);
        let (r, c) = sh[is];
        let np = (r * c).max(1);
        for pos in 0..np {
            ctx.case(format!("norms {}x{} pos={}", r, c, pos), |t| {
                let mut a = rm(3, r, c);
                if r * c > 0 {
                    a.set(pos / c, pos % c, -1000.0);
                }
                let z = ComplexMatrix::initialized(r, c, |i, j| cpx!(4.0 * a.get(i, j), -3.0 * a.get(i, j)));
                for kind in NORMS {
                    t.ops(2);
                    let want = ref_mat_norm(r, c, &|i, j| a.get(i, j).abs(), kind);
                    let got = mat_norm(&a, kind);
                    ensure!(close(got, want, 1e-13), "norm {:?} = {} instead of {}", kind, got, want);
                    let got = complex_mat_norm(&z, kind);
                    ensure!(close(got, 5.0 * want, 1e-13), "complex norm {:?} = {} instead of {}", kind, got, 5.0 * want);
                }
                t.op();
                let b = rm(4, r, c);
                let (i, j, m) = mat_max_abs_diff(&a, &b)?;
                let want = ref_mat_norm(r, c, &|i, j| (a.get(i, j) - b.get(i, j)).abs(), Norm::Max);
                ensure!(m == want, "max_abs_diff {} instead of {}", m, want);
                ensure!(r * c == 0 || (a.get(i, j) - b.get(i, j)).abs() == want, "max_abs_diff position ({},{})", i, j);
                Ok(())
            });
        }
        for pos in 0..r * c {
            ctx.case(format!("nan {}x{} pos={}", r, c, pos), |t| {
                let mut a = rm(3, r, c);
                a.set(pos / c, pos % c, f64::NAN);
                for kind in NORMS {
                    t.ops(3);
                    ensure!(mat_norm(&a, kind).is_nan(), "norm {:?} with NaN is {}", kind, mat_norm(&a, kind));
                    for swap in [false, true] {
                        let z = ComplexMatrix::initialized(r, c, |i, j| {
                            if swap { cpx!(1.0, a.get(i, j)) } else { cpx!(a.get(i, j), 1.0) }
                        });
                        let got = complex_mat_norm(&z, kind);
                        ensure!(got.is_nan(), "complex norm {:?} with NaN is {}", kind, got);
                    }
                }
                t.ops(2);
                let b = rm(4, r, c);
                for (p, q) in [(&a, &b), (&b, &a)] {
                    let (i, j, m) = mat_max_abs_diff(p, q)?;
                    ensure!(m.is_nan() && (i, j) == (pos / c, pos % c), "max_abs_diff with NaN is ({},{},{})", i, j, m);
                }
                Ok(())
            });
        }
        ctx.case(format!("sums {}x{}", r, c), |t| {
            t.ops(2);
            let a = rm(3, r, c);
            let mut v = rv(9, r);
            mat_sum_cols(&mut v, &a)?;
            for i in 0..r {
                let want: f64 = (0..c).map(|j| a.get(i, j)).sum();
                ensure!(v[i] == want, "sum_cols row {}", i);
            }
            let mut v = rv(9, c);
            mat_sum_rows(&mut v, &a)?;
            for j in 0..c {
                let want: f64 = (0..r).map(|i| a.get(i, j)).sum();
                ensure!(v[j] == want, "sum_rows column {}", j);
            }
            ensure!(mat_sum_cols(&mut rv(9, r + 1), &a).is_err(), "sum_cols accepted wrong dim");
            ensure!(mat_sum_rows(&mut rv(9, c + 1), &a).is_err(), "sum_rows accepted wrong dim");
            ensure!(mat_max_abs_diff(&a, &rm(1, r + 1, c)).is_err(), "max_abs_diff accepted wrong dims");
            ensure!(mat_max_abs_diff(&a, &rm(1, r, c + 1)).is_err(), "max_abs_diff accepted wrong dims");
            unchanged("a", &a, &rm(3, r, c))
        });
        for alpha in [0.0, 1.0, -2.5] {
            ctx.case(format!("outer {}x{} alpha={}", r, c, alpha), |t| {
                t.ops(2);
                let (u, v) = (rv(1, r), rv(2, c));
                let mut a = rm(3, r, c);
                vec_outer(&mut a, alpha, &u, &v)?;
                let a0 = rm(3, r, c);
                let mut b = rm(3, r, c);
                vec_outer_update(&mut b, alpha, &u, &v)?;
                for i in 0..r {
                    for j in 0..c {
                        ensure!(a.get(i, j) == alpha * u[i] * v[j], "outer ({},{})", i, j);
                        ensure!(b.get(i, j) == a0.get(i, j) + alpha * u[i] * v[j], "outer_update ({},{})", i, j);
                    }
                }
                vunchanged("u", &u, &rv(1, r))?;
                vunchanged("v", &v, &rv(2, c))?;
                for (p, q) in [(r + 1, c), (r, c + 1)] {
                    let mut w = rm(3, p, q);
                    ensure!(vec_outer(&mut w, alpha, &u, &v).is_err(), "outer accepted wrong dims");
                    unchanged("w", &w, &rm(3, p, q))?;
                    ensure!(vec_outer_update(&mut w, alpha, &u, &v).is_err(), "outer_update accepted wrong dims");
                    unchanged("w", &w, &rm(3, p, q))?;
                }
                Ok(())
            });
            for beta in [0.0, 1.0, -1.5] {
                ctx.case(format!("mat-vec-update {}x{} alpha={} beta={}", r, c, alpha, beta), |t| {
                    t.op();
                    let a = rm(3, r, c);
                    let (u, v0) = (rv(1, c), rv(2, r));
                    let mut v = v0.clone();
                    mat_vec_mul_update(&mut v, alpha, &a, &u, beta)?;
                    for i in 0..r {
                        let want = alpha * (0..c).map(|j| a.get(i, j) * u[j]).sum::<f64>() + beta * v0[i];
                        ensure!(v[i] == want, "component {} is {} instead of {}", i, v[i], want);
                    }
                    unchanged("a", &a, &rm(3, r, c))?;
                    vunchanged("u", &u, &rv(1, c))?;
                    ensure!(mat_vec_mul_update(&mut rv(2, r + 1), alpha, &a, &u, beta).is_err(), "accepted wrong dim of v");
                    ensure!(mat_vec_mul_update(&mut rv(2, r), alpha, &a, &rv(1, c + 1), beta).is_err(), "accepted wrong dim of u");
                    Ok(())
                });
            }
        }
        ctx.case(format!("zip {}x{}", r, c), |t| {
            t.ops(2);
            let (re, im) = (rm(1, r, c), rm(2, r, c));
            let mut z = ComplexMatrix::new(r, c);
            complex_mat_zip(&mut z, &re, &im)?;
            for i in 0..r {
                for j in 0..c {
                    ensure!(z.get(i, j) == cpx!(re.get(i, j), im.get(i, j)), "zip ({},{})", i, j);
                }
            }
            let (mut a, mut b) = (rm(3, r, c), rm(4, r, c));
            complex_mat_unzip(&mut a, &mut b, &z)?;
            unchanged("real", &a, &re)?;
            unchanged("imag", &b, &im)?;
            let mut w = ComplexMatrix::new(r + 1, c);
            ensure!(complex_mat_zip(&mut w, &re, &im).is_err(), "zip accepted wrong dims");
            ensure!(complex_mat_zip(&mut z, &rm(1, r, c + 1), &im).is_err(), "zip accepted wrong dims");
            ensure!(complex_mat_zip(&mut z, &re, &rm(1, r, c + 1)).is_err(), "zip accepted wrong dims");
            ensure!(complex_mat_unzip(&mut a, &mut b, &w).is_err(), "unzip accepted wrong dims");
            ensure!(complex_mat_unzip(&mut rm(1, r + 1, c), &mut b, &z).is_err(), "unzip accepted wrong dims");
            ensure!(complex_mat_unzip(&mut a, &mut rm(1, r, c + 1), &z).is_err(), "unzip accepted wrong dims");
            Ok(())
        });
        // band storage
        for ml in 0..4 {
            for mu in 0..4 {
                ctx.case(format!("band {}x{} ml={} mu={}", r, c, ml, mu), |t| {
                    t.op();
                    let a = rm(3, r, c);
                    let b0 = rm(4, ml + mu + 1, c);
                    let mut b = b0.clone();
                    mat_convert_to_blas_band(&mut b, &a, ml, mu)?;
                    for p in 0..ml + mu + 1 {
                        for j in 0..c {
                            // p = i + mu - j
                            let i = p as i64 + j as i64 - mu as i64;
                            let want = if i >= 0 && i < r as i64 { a.get(i as usize, j) } else { b0.get(p, j) };
                            ensure!(b.get(p, j) == want, "band ({},{}) is {} instead of {}", p, j, b.get(p, j), want);
                        }
                    }
                    ensure!(mat_convert_to_blas_band(&mut rm(4, ml + mu + 2, c), &a, ml, mu).is_err(), "accepted wrong rows");
                    ensure!(mat_convert_to_blas_band(&mut rm(4, ml + mu + 1, c + 1), &a, ml, mu).is_err(), "accepted wrong columns");
                    Ok(())
                });
            }
        }
    });
    // operands that do not fit
    run.section("reduction-dims", 5 * 5, |ctx, idx| {
        let (m, n) = (idx / 5, idx % 5);
        for p in 0..5 {
            for q in 0..5 {
                ctx.case(format!("{}x{} with {}x{}", m, n, p, q), |t| {
                    t.ops(6);
                    ensure!(vec_max_abs_diff(&Vector::new(m), &Vector::new(p)).is_ok() == (m == p), "difference of vectors");
                    ensure!(mat_max_abs_diff(&Matrix::new(m, n), &Matrix::new(p, q)).is_ok() == (m == p && n == q), "difference of matrices");
                    for upper in [false, true] {
                        for second in [false, true] {
                            let c0 = cm(1, m, n);
                            let (a, mut w) = (cm(2, p, q), c0.clone());
                            let ok = m == n && m == if second { q } else { p };
                            let res = complex_mat_herm_rank_op(&mut w, &a, 2.0, 3.0, upper, second);
                            ensure!(res.is_ok() == ok, "hermitian product (upper {upper}, second {second}): {res:?}");
                            ensure!(ok || w.as_data() == c0.as_data(), "the refused hermitian product has changed the matrix");
                        }
                    }
                    Ok(())
                });
            }
        }
    });
    // hermitian rank-k
    let ext: Vec<usize> = vec![0, 1, 2, 3, 4, 5, 8, 9, 16, 17];
    let ne = ext.len();
    let nl = LARGE.len();
    run.section("herm-rank", (ne * ne + nl * nl) * N_PAT, |ctx, idx| {
        let idx = pattern(ctx, idx);
        let (n, k) = if idx < ne * ne { (ext[idx / ne], ext[idx % ne]) } else { (LARGE[(idx - ne * ne) / nl], LARGE[(idx - ne * ne) % nl]) };
        let zero = cpx!(0.0, 0.0);
        for second in [false, true] {
            let a0 = if second { cm(1, k, n) } else { cm(1, n, k) };
            let prod: Vec<Complex64> = (0..n * n)
                .map(|p| {
                    let (i, j) = (p / n, p % n);
                    (0..k).fold(zero, |s, l| s + if second { a0.get(l, i).conj() * a0.get(l, j) } else { a0.get(i, l) * a0.get(j, l).conj() })
                })
                .collect();
            let c0 = ComplexMatrix::initialized(n, n, |i, j| {
                let (p, q) = (i.min(j), i.max(j));
                let im = if i == j { 0 } else if i < j { ival(4, p, q) } else { -ival(4, p, q) };
                cpx!(ival(3, p, q) as f64, im as f64)
            });
            for upper in [false, true] {
                for alpha in [0.0, 1.0, -0.5, 2.0] {
                    for beta in [0.0, 1.0, -1.5] {
                        ctx.case(format!("n={} k={} second={} upper={} alpha={:?} beta={:?}", n, k, second, upper, alpha, beta), |t| {
                            t.op();
                            let a = a0.clone();
                            let mut w = c0.clone();
                            complex_mat_herm_rank_op(&mut w, &a, alpha, beta, upper, second)?;
                            for i in 0..n {
                                for j in 0..n {
                                    let inside = (upper && i <= j) || (!upper && i >= j);
                                    let want = if inside { alpha * prod[i * n + j] + beta * c0.get(i, j) } else { c0.get(i, j) };
                                    ensure!(w.get(i, j) == want, "({},{}) is {:?} instead of {:?}", i, j, w.get(i, j), want);
                                }
                            }
                            ensure!(a.as_data() == a0.as_data(), "a was modified");
                            Ok(())
                        });
                    }
                }
            }
        }
    });
}

fn small<const N: usize>(ctx: &mut Ctx) {
    let mat = |s: usize| -> [[f64; N]; N] { std::array::from_fn(|i| std::array::from_fn(|j| ival(s, i, j) as f64)) };
    let vect = |s: usize| -> [f64; N] { std::array::from_fn(|i| ival(s, i, 0) as f64) };
    for n in 0..=N {
        for alpha in [0.0, 1.0, -1.5] {
            for beta in [0.0, 1.0, 2.0] {
                ctx.case(format!("N={} n={} alpha={} beta={}", N, n, alpha, beta), |t| {
                    t.ops(5);
                    let (a, b, c0) = (mat(1), mat(2), mat(3));
                    let inside = |i: usize, j: usize| i < n && j < n;
                    let mut c = c0;
                    small_mat_mat_mul(&mut c, alpha, &a, &b, beta, n);
                    for i in 0..N {
                        for j in 0..N {
                            let want = if inside(i, j) { alpha * (0..n).map(|k| a[i][k] * b[k][j]).sum::<f64>() + beta * c0[i][j] } else { c0[i][j] };
                            ensure!(c[i][j] == want, "mat_mul ({},{})", i, j);
                        }
                    }
                    let mut c = c0;
                    small_mat_add(&mut c, alpha, &a, beta, &b, n);
                    let mut d = c0;
                    small_mat_update(&mut d, alpha, &a, n);
                    for i in 0..N {
                        for j in 0..N {
                            let want = if inside(i, j) { alpha * a[i][j] + beta * b[i][j] } else { c0[i][j] };
                            ensure!(c[i][j] == want, "mat_add ({},{})", i, j);
                            let want = if inside(i, j) { c0[i][j] + alpha * a[i][j] } else { c0[i][j] };
                            ensure!(d[i][j] == want, "mat_update ({},{})", i, j);
                        }
                    }
                    let (u, v, w0) = (vect(1), vect(2), vect(3));
                    let mut w = w0;
                    small_vec_add(&mut w, alpha, &u, beta, &v, n);
                    let mut x = w0;
                    small_vec_update(&mut x, alpha, &u, n);
                    for i in 0..N {
                        ensure!(w[i] == if i < n { alpha * u[i] + beta * v[i] } else { w0[i] }, "vec_add {}", i);
                        ensure!(x[i] == if i < n { w0[i] + alpha * u[i] } else { w0[i] }, "vec_update {}", i);
                    }
                    Ok(())
                });
            }
        }
    }
}

pub fn explore(run: &mut Run) {
    run.level(
        "exploration",
        "every kernel x every operand shape up to the bound x every scalar factor of a fixed set x incompatible shape combinations; operands hold fixed position-dependent integers so results are exact; a case is trivial only if all operands are empty",
    );
    run.assume("operand values are one fixed integer-valued filling per shape (kernels are linear in each operand, extreme positions are enumerated for norms)");
    real::explore(run);
    cmplx::explore(run);
    reductions(run);
    run.section("small", 6, |ctx, i| match i {
        0 => small::<1>(ctx),
        1 => small::<2>(ctx),
        2 => small::<3>(ctx),
        3 => small::<4>(ctx),
        4 => small::<6>(ctx),
        _ => small::<9>(ctx),
    });
}
