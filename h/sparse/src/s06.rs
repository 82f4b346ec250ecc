//! S06: verification of solutions, statistics and sample matrices

use crate::s01::{allowed, SYMS};
use mc::*;
use num_complex::Complex64;
use russell_lab::{format_nanoseconds, ComplexVector, Vector};
use russell_sparse::prelude::*;
use russell_sparse::{is_memory_error, NumCooMatrix, NumCscMatrix, NumCsrMatrix, Samples};

fn c(re: f64, im: f64) -> Complex64 {
    Complex64::new(re, im)
}

/// Dense matrix denoted by a list of triples
fn dense(m: usize, n: usize, sym: Sym, t: &[(usize, usize, Complex64)]) -> Vec<Vec<Complex64>> {
    let mut a = vec![vec![c(0.0, 0.0); n]; m];
    for &(i, j, v) in t {
        a[i][j] += v;
        if crate::s01::tri(sym) && i != j {
            a[j][i] += v;
        }
    }
    a
}

/// Expected verification data: (max |a|, max |a x|, max |a x - b|)
fn expected(a: &[Vec<Complex64>], x: &[Complex64], b: &[Complex64]) -> (f64, f64, f64) {
    let mut r = (0.0, 0.0, 0.0);
    for i in 0..a.len() {
        let mut s = c(0.0, 0.0);
        for j in 0..x.len() {
            r.0 = f64::max(r.0, a[i][j].norm());
            s += a[i][j] * x[j];
        }
        r.1 = f64::max(r.1, s.norm());
        r.2 = f64::max(r.2, (s - b[i]).norm());
    }
    r
}

fn agree(got: &VerifyLinSys, want: (f64, f64, f64), what: &str) -> Outcome {
    ensure!(close(got.max_abs_a, want.0, 1e-14), "{} max_abs_a {} instead of {}", what, got.max_abs_a, want.0);
    ensure!(close(got.max_abs_ax, want.1, 1e-14), "{} max_abs_ax {} instead of {}", what, got.max_abs_ax, want.1);
    ensure!(close(got.max_abs_diff, want.2, 1e-14), "{} max_abs_diff {} instead of {}", what, got.max_abs_diff, want.2);
    let rel = want.2 / (want.0 + 1.0);
    ensure!(close(got.relative_error, rel, 1e-14), "{} relative error {} instead of {}", what, got.relative_error, rel);
    ensure!((got.relative_error == 0.0) == (want.2 == 0.0), "{} relative error {} with difference {}", what, got.relative_error, want.2);
    Ok(())
}

/// Real and complex matrices with the same triples (the real one takes the real parts)
fn build(m: usize, n: usize, sym: Sym, t: &[(usize, usize, Complex64)], slack: usize) -> Result<(CooMatrix, ComplexCooMatrix), String> {
    let cap = (t.len() + slack).max(1);
    let mut a = CooMatrix::new(m, n, cap, sym)?;
    let mut z = ComplexCooMatrix::new(m, n, cap, sym)?;
    for &(i, j, v) in t {
        a.put(i, j, v.re)?;
        z.put(i, j, v)?;
    }
    Ok((a, z))
}

fn real(v: &[Complex64]) -> Vec<Complex64> {
    v.iter().map(|x| c(x.re, 0.0)).collect()
}

fn rvec(v: &[Complex64]) -> Vector {
    Vector::from(&v.iter().map(|x| x.re).collect::<Vec<f64>>())
}

fn cvec(v: &[Complex64]) -> ComplexVector {
    ComplexVector::from(&v.to_vec())
}

const ENTRY: [Option<(f64, f64)>; 4] = [None, Some((1.0, -2.0)), Some((-3.0, 4.0)), Some((0.5, 0.0))];
const XS: [(f64, f64); 3] = [(0.0, 0.0), (1.0, 1.0), (-2.0, 3.0)];
const BS: [(f64, f64); 3] = [(0.0, 0.0), (-5.0, 1.0), (4.0, -12.0)];

fn verification(run: &mut Run) {
    let mut shapes = vec![(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1)];
    if run.thorough() {
        shapes.extend([(2, 3), (3, 2)]);
    }
    let mut items = Vec::new();
    for &(m, n) in &shapes {
        for sym in SYMS {
            if m != n && sym != Sym::No {
                continue;
            }
            for k in 0..pow(ENTRY.len(), m * n) {
                items.push((m, n, sym, k));
            }
        }
    }
    run.section("verification", items.len(), |ctx, idx| {
        let (m, n, sym, k) = items[idx];
        let e = digits(k, ENTRY.len(), m * n);
        let mut t = Vec::new();
        for i in 0..m {
            for j in 0..n {
                if let Some((re, im)) = ENTRY[e[i * n + j]] {
                    if !allowed(sym, i, j) {
                        return; // the same stored matrix is generated with the entry absent
                    }
                    t.push((i, j, c(re, im)));
                }
            }
        }
        let a = dense(m, n, sym, &t);
        let ar: Vec<Vec<Complex64>> = a.iter().map(|r| real(r)).collect();
        for kx in 0..pow(XS.len(), n) {
            let x: Vec<Complex64> = digits(kx, XS.len(), n).iter().map(|&i| c(XS[i].0, XS[i].1)).collect();
            for kb in 0..pow(BS.len(), m) + 2 {
                // right-hand sides: every combination, the exact one, and the exact one with one unit in the last row
                let exact: Vec<Complex64> = (0..m).map(|i| (0..n).map(|j| a[i][j] * x[j]).sum()).collect();
                let nb = pow(BS.len(), m);
                let mut b: Vec<Complex64> = if kb < nb {
                    digits(kb, BS.len(), m).iter().map(|&i| c(BS[i].0, BS[i].1)).collect()
                } else {
                    exact
                };
                if kb == nb + 1 {
                    b[m - 1] += c(0.0, 1.0);
                }
                ctx.case(format!("{}x{} {:?} a={} x={} b={}", m, n, sym, k, kx, kb), |tr| {
                    tr.ops(2);
                    let (coo, zoo) = build(m, n, sym, &t, kb % 3)?;
                    if t.is_empty() {
                        tr.trivial();
                        ensure!(VerifyLinSys::from(&coo, &rvec(&x), &rvec(&b)).is_err(), "empty matrix accepted");
                        ensure!(VerifyLinSys::from_complex(&zoo, &cvec(&x), &cvec(&b)).is_err(), "empty matrix accepted");
                        return Ok(());
                    }
                    let got = VerifyLinSys::from(&coo, &rvec(&x), &rvec(&b))?;
                    agree(&got, expected(&ar, &real(&x), &real(&b)), "real")?;
                    let got = VerifyLinSys::from_complex(&zoo, &cvec(&x), &cvec(&b))?;
                    agree(&got, expected(&a, &x, &b), "complex")
                });
            }
            // a NaN anywhere is never reported as a small error
            let nt = t.len();
            for pos in 0..nt + n + m {
                if t.is_empty() {
                    continue;
                }
                ctx.case(format!("nan {}x{} {:?} a={} x={} pos={}", m, n, sym, k, kx, pos), |tr| {
                    let mut t = t.clone();
                    let mut x = x.clone();
                    let mut b: Vec<Complex64> = (0..m).map(|i| (0..n).map(|j| a[i][j] * x[j]).sum()).collect();
                    let target = |v: &mut Complex64, imag: bool| {
                        if imag {
                            v.im = f64::NAN
                        } else {
                            v.re = f64::NAN
                        }
                    };
                    // a NaN in the solution matters only where the matrix has an entry
                    let mut matters = true;
                    if pos >= nt && pos < nt + n {
                        matters = (0..m).any(|i| t.iter().any(|e| (e.0, e.1) == (i, pos - nt) || (crate::s01::tri(sym) && (e.1, e.0) == (i, pos - nt))));
                    }
                    for imag in [false, true] {
                        tr.ops(2);
                        let (t0, x0, b0) = (t.clone(), x.clone(), b.clone());
                        if pos < nt {
                            target(&mut t[pos].2, imag);
                        } else if pos < nt + n {
                            target(&mut x[pos - nt], imag);
                        } else {
                            target(&mut b[pos - nt - n], imag);
                        }
                        let (coo, zoo) = build(m, n, sym, &t, 1)?;
                        if matters {
                            let got = VerifyLinSys::from_complex(&zoo, &cvec(&x), &cvec(&b))?;
                            ensure!(!got.relative_error.is_finite(), "complex relative error with NaN is {}", got.relative_error);
                            if !imag {
                                let got = VerifyLinSys::from(&coo, &rvec(&x), &rvec(&b))?;
                                ensure!(!got.relative_error.is_finite(), "real relative error with NaN is {}", got.relative_error);
                            }
                        }
                        (t, x, b) = (t0, x0, b0);
                    }
                    Ok(())
                });
            }
        }
    });
    // larger systems: the largest entry, product and residual at every place
    let sizes = [5usize, 8, 9, 16, 17, 33, 65];
    run.section("larger", sizes.len() * 4, |ctx, w| {
        let (n, sym) = (sizes[w / 4], SYMS[w % 4]);
        for wide in [0, 3] {
            if wide > 0 && sym != Sym::No {
                continue;
            }
            let cols = n + wide;
            let mut base = Vec::new();
            for i in 0..n {
                for j in 0..cols {
                    if allowed(sym, i, j) && (i == j || (i * 3 + j * 5) % 4 == 1 || (sym == Sym::YesFull && (j * 3 + i * 5) % 4 == 1)) {
                        let v = (i + j) % 5 + i * j % 3;
                        base.push((i, j, c(1.0 + v as f64, (i + j) as f64 % 3.0 - 1.0)));
                    }
                }
            }
            let x: Vec<Complex64> = (0..cols).map(|j| c((j % 4) as f64 - 1.5, (j % 3) as f64)).collect();
            for place in 0..n {
                for kind in 0..3 {
                    ctx.case(format!("{}x{} {:?} place={} kind={}", n, cols, sym, place, kind), |tr| {
                        let mut t = base.clone();
                        if kind == 0 {
                            for e in t.iter_mut().filter(|e| e.0 == place && e.1 == place) {
                                e.2 = c(-300.0, 400.0);
                            }
                        }
                        let a = dense(n, cols, sym, &t);
                        let ar: Vec<Vec<Complex64>> = a.iter().map(|r| real(r)).collect();
                        let mut b: Vec<Complex64> = (0..n).map(|i| (0..cols).map(|j| a[i][j] * x[j]).sum()).collect();
                        let xr = real(&x);
                        let mut br: Vec<Complex64> = (0..n).map(|i| (0..cols).map(|j| ar[i][j] * xr[j]).sum()).collect();
                        if kind > 0 {
                            let off = if kind == 1 { c(1000.0, 0.0) } else { c(-0.25, 0.5) };
                            b[place] += off;
                            br[place] += off.re;
                        }
                        let (coo, zoo) = build(n, cols, sym, &t, kind)?;
                        tr.ops(2);
                        let got = VerifyLinSys::from(&coo, &rvec(&x), &rvec(&br))?;
                        agree(&got, expected(&ar, &xr, &br), "real")?;
                        let got = VerifyLinSys::from_complex(&zoo, &cvec(&x), &cvec(&b))?;
                        agree(&got, expected(&a, &x, &b), "complex")
                    });
                }
            }
        }
    });
    run.section("dimensions", 4, |ctx, m| {
        let m = m + 1;
        for n in 1..=4 {
            for nx in 1..=5 {
                for nb in 1..=5 {
                    ctx.case(format!("{}x{} x={} b={}", m, n, nx, nb), |tr| {
                        tr.ops(2);
                        let t: Vec<_> = (0..m).map(|i| (i, i % n, c(1.0, 0.0))).collect();
                        let (coo, zoo) = build(m, n, Sym::No, &t, 0)?;
                        let ok = nx == n && nb == m;
                        let r = VerifyLinSys::from(&coo, &Vector::new(nx), &Vector::new(nb)).is_ok();
                        ensure!(r == ok, "real: accepted={}", r);
                        let r = VerifyLinSys::from_complex(&zoo, &ComplexVector::new(nx), &ComplexVector::new(nb)).is_ok();
                        ensure!(r == ok, "complex: accepted={}", r);
                        Ok(())
                    });
                }
            }
        }
    });
    let vals = [0.0, 1e-15, 1.0, 2.0, f64::INFINITY, f64::NAN];
    run.section("largest-error", vals.len(), |ctx, i| {
        for j in 0..vals.len() {
            ctx.case(format!("{} {}", vals[i], vals[j]), |tr| {
                tr.op();
                let mk = |r: f64, tag: f64| VerifyLinSys {
                    max_abs_a: 1.0 * tag,
                    max_abs_ax: 2.0 * tag,
                    max_abs_diff: 3.0 * tag,
                    relative_error: r,
                };
                let (p, q) = (mk(vals[i], 1.0), mk(vals[j], 10.0));
                let got = p.max_relative_error(&q);
                let which = |s: &VerifyLinSys, v: f64| {
                    s.max_abs_ax == 2.0 * s.max_abs_a
                        && s.max_abs_diff == 3.0 * s.max_abs_a
                        && (s.relative_error == v || (v.is_nan() && s.relative_error.is_nan()))
                };
                if vals[i].is_nan() || vals[j].is_nan() {
                    ensure!(got.relative_error.is_nan(), "the NaN is hidden: {:?}", got);
                } else {
                    let big = f64::max(vals[i], vals[j]);
                    ensure!(which(&got, big), "{:?} instead of the one with {}", got, big);
                    if vals[i] != vals[j] {
                        ensure!(got.max_abs_a == if vals[i] > vals[j] { 1.0 } else { 10.0 }, "mixed data {:?}", got);
                    }
                }
                Ok(())
            });
        }
    });
}

fn statistics(run: &mut Run) {
    // timings of up to three runs
    let times: [u128; 4] = [0, 7, 1_500, 60_000_000_001];
    let max_run = run.pick(2, 3);
    let mut items = Vec::new();
    for n in 0..=max_run {
        for k in 0..pow(times.len(), 3 * n) {
            items.push((n, k));
        }
    }
    run.section("timings", items.len(), |ctx, idx| {
        let (n, k) = items[idx];
        ctx.case(format!("runs={} k={}", n, k), |tr| {
            tr.ops(3);
            let d: Vec<u128> = digits(k, times.len(), 3 * n).iter().map(|&i| times[i]).collect();
            let mut s = StatsLinSol::new();
            s.time_nanoseconds.read_matrix = 1_234_567;
            s.time_nanoseconds.verify = 89;
            for i in 0..n {
                s.time_nanoseconds.initialize_array.push(d[3 * i]);
                s.time_nanoseconds.factorize_array.push(d[3 * i + 1]);
                s.time_nanoseconds.solve_array.push(d[3 * i + 2]);
            }
            s.determinant.mantissa_real = -1.5;
            s.determinant.base = 10.0;
            s.determinant.exponent = 3.0;
            s.requests.hybrid_memory_factor = if k % 2 == 0 { None } else { Some(0.25) };
            let json = s.get_json();
            let tn = &s.time_nanoseconds;
            let th = &s.time_human;
            let mean = |v: &[u128]| if v.is_empty() { 0 } else { v.iter().sum::<u128>() / v.len() as u128 };
            let total: Vec<u128> = (0..n).map(|i| d[3 * i] + d[3 * i + 1] + d[3 * i + 2]).collect();
            ensure!(tn.total_ifs_array == total, "totals {:?} instead of {:?}", tn.total_ifs_array, total);
            for (name, arr, ave, harr, have) in [
                ("initialize", &tn.initialize_array, tn.initialize, &th.initialize_array, &th.initialize),
                ("factorize", &tn.factorize_array, tn.factorize, &th.factorize_array, &th.factorize),
                ("solve", &tn.solve_array, tn.solve, &th.solve_array, &th.solve),
                ("total", &tn.total_ifs_array, tn.total_ifs, &th.total_ifs_array, &th.total_ifs),
            ] {
                let want = mean(arr);
                ensure!(ave.abs_diff(want) as f64 <= 1e-15 * want as f64, "{}: average {} instead of {}", name, ave, want);
                ensure!(*have == format_nanoseconds(ave), "{}: {} for {}", name, have, ave);
                let h: Vec<String> = arr.iter().map(|v| format_nanoseconds(*v)).collect();
                ensure!(*harr == h, "{}: {:?} instead of {:?}", name, harr, h);
            }
            ensure!(th.read_matrix == format_nanoseconds(1_234_567), "read_matrix {}", th.read_matrix);
            ensure!(th.verify == format_nanoseconds(89), "verify {}", th.verify);
            ensure!(s.clone().get_json() == json, "the second JSON differs");
            if k % 16 == 5 || n < 2 {
                let path = format!("{}/s06-{}-{}/x/stats.json", scratch(), n, k);
                s.write_json(&path)?;
                let mut r = StatsLinSol::read_json(&path)?;
                ensure!(r.get_json() == json, "the data changed by writing and reading");
            }
            Ok(())
        });
    });
    run.section("json-fields", 1, |ctx, _| {
        // every field survives writing and reading
        for which in 0..6 {
            ctx.case(format!("field {}", which), |tr| {
                tr.ops(2);
                let mut s = StatsLinSol::new();
                match which {
                    0 => s.main.solver = "a \"quoted\" name\n".to_string(),
                    1 => s.matrix.name = "größe".to_string(),
                    2 => s.output.umfpack_rcond_estimate = 1.0 / 3.0,
                    3 => s.verify.relative_error = f64::MIN_POSITIVE,
                    4 => s.mumps_stats.condition_number2 = 1e308,
                    _ => s.determinant.mantissa_imag = -0.1,
                }
                let path = format!("{}/s06-f{}.json", scratch(), which);
                s.write_json(&path)?;
                let r = StatsLinSol::read_json(&path)?;
                ensure!(format!("{:?}", r) == format!("{:?}", s), "the data changed by writing and reading");
                Ok(())
            });
        }
        ctx.case("missing".to_string(), |tr| {
            tr.op();
            ensure!(StatsLinSol::read_json(&format!("{}/s06-none.json", scratch())).is_err(), "missing file accepted");
            Ok(())
        });
        for (path, name) in [
            ("/a/b/bfwb62.mtx", "bfwb62"),
            ("bfwb62.mtx", "bfwb62"),
            ("a.b/c.d.mtx", "c.d"),
            ("noext", "noext"),
            ("dir/noext", "noext"),
            ("", "Unknown"),
            ("..", "Unknown"),
            ("/", "Unknown"),
            (".hidden", ".hidden"),
        ] {
            ctx.case(format!("name '{}'", path), |tr| {
                tr.op();
                let mut s = StatsLinSol::new();
                s.matrix.name = "before".to_string();
                s.set_matrix_name_from_path(path);
                ensure!(s.matrix.name == name, "'{}' instead of '{}'", s.matrix.name, name);
                Ok(())
            });
        }
        for (msg, yes) in [
            ("UMFPACK failed due to MALLOC error", true),
            ("MUMPS failed due to MALLOC error", true),
            ("Error(-1): Not enough memory", true),
            ("Error(-19): maximum allowed size of working memory is too small for the factorization", true),
            ("cudaMalloc failed in the C code (cuDSS)", true),
            ("cuDSS symbolic factorization failed: CUDSS_STATUS_ALLOC_FAILED", true),
            ("cuDSS numeric factorization failed: CUDSS_STATUS_ALLOC_FAILED", true),
            ("cuDSS solve failed: CUDSS_STATUS_ALLOC_FAILED", true),
            ("Error(1): Matrix is singular", false),
            ("Error(-911): An internal error has occurred", false),
            ("UMFPACK failed due to NULL POINTER error", false),
            ("", false),
        ] {
            ctx.case(format!("memory error '{}'", msg), |tr| {
                tr.op();
                ensure!(is_memory_error(msg) == yes, "reported as {}", !yes);
                Ok(())
            });
        }
    });
    // information about the matrix, whatever sequence of operations built it
    let len = run.pick(3, 4);
    let mut items = Vec::new();
    for (m, n) in [(1, 1), (2, 2), (2, 3), (3, 2)] {
        for sym in SYMS {
            if m == n || sym == Sym::No {
                items.push((m, n, sym));
            }
        }
    }
    run.section("matrix-info", items.len(), |ctx, idx| {
        let (m, n, sym) = items[idx];
        for l in 0..=len {
            for k in 0..pow(m * n, l) {
                let h = digits(k, m * n, l);
                if h.iter().any(|&p| !allowed(sym, p / n, p % n)) {
                    continue;
                }
                ctx.case(format!("{}x{} {:?} {:?}", m, n, sym, h), |tr| {
                    tr.ops(2 + 2 * l);
                    let t: Vec<_> = h.iter().map(|&p| (p / n, p % n, c(1.0, 1.0))).collect();
                    let (coo, zoo) = build(m, n, sym, &t, 2)?;
                    let mut s = StatsLinSol::new();
                    for complex in [false, true, false] {
                        if complex {
                            s.set_matrix_info_from_coo(&zoo);
                        } else {
                            s.set_matrix_info_from_coo(&coo);
                        }
                        let off = if crate::s01::tri(sym) { t.iter().filter(|e| e.0 != e.1).count() } else { 0 };
                        let i = &s.matrix;
                        ensure!((i.nrow, i.ncol, i.nnz, i.nnz_actual) == (m, n, l, l + off), "{:?}", i);
                        ensure!(i.complex == complex && i.symmetric == format!("{:?}", sym), "{:?}", i);
                    }
                    tr.state(&(m, n, format!("{:?}", sym), &h));
                    Ok(())
                });
            }
        }
    });
}

/// Determinant by cofactors along the first row (no pivoting issues)
fn det(a: &[Vec<Complex64>]) -> Complex64 {
    let n = a.len();
    if n == 0 {
        return c(1.0, 0.0);
    }
    let mut sum = c(0.0, 0.0);
    for j in 0..n {
        let sub: Vec<Vec<Complex64>> = a[1..]
            .iter()
            .map(|r| r.iter().enumerate().filter(|(k, _)| *k != j).map(|(_, v)| *v).collect())
            .collect();
        let term = a[0][j] * det(&sub);
        sum += if j % 2 == 0 { term } else { -term };
    }
    sum
}

fn sample<T: crate::s01::Item>(
    coo: &NumCooMatrix<T>,
    csc: &NumCscMatrix<T>,
    csr: &NumCsrMatrix<T>,
    get: fn(&T) -> Complex64,
) -> Result<(Sym, Vec<Vec<Complex64>>), String> {
    let (m, n, nnz, sym) = coo.get_info();
    let info = csc.get_info();
    ensure!((info.0, info.1, info.3) == (m, n, sym), "CSC info {:?}", info);
    let info = csr.get_info();
    ensure!((info.0, info.1, info.3) == (m, n, sym), "CSR info {:?}", info);
    let (ii, jj, vv) = (coo.get_row_indices(), coo.get_col_indices(), coo.get_values());
    ensure!(ii.len() == nnz && jj.len() == nnz && vv.len() == nnz, "lengths of the triples");
    let t: Vec<_> = (0..nnz).map(|p| (ii[p] as usize, jj[p] as usize, get(&vv[p]))).collect();
    let a = dense(m, n, sym, &t);
    // compressed forms, by their definition
    for (name, nout, nin, ptr, ind, val, by_col) in [
        ("CSC", n, m, csc.get_col_pointers(), csc.get_row_indices(), csc.get_values(), true),
        ("CSR", m, n, csr.get_row_pointers(), csr.get_col_indices(), csr.get_values(), false),
    ] {
        ensure!(ptr.len() == nout + 1 && ptr[0] == 0, "{} pointers {:?}", name, ptr);
        let last = ptr[nout] as usize;
        ensure!(ind.len() >= last && val.len() >= last, "{} lengths", name);
        let mut t = Vec::new();
        for o in 0..nout {
            ensure!(ptr[o] <= ptr[o + 1], "{} pointers {:?}", name, ptr);
            for p in ptr[o] as usize..ptr[o + 1] as usize {
                let i = ind[p] as usize;
                ensure!(i < nin, "{} index {}", name, i);
                ensure!(p == ptr[o] as usize || ind[p - 1] < ind[p], "{} indices not increasing", name);
                let (i, j) = if by_col { (i, o) } else { (o, i) };
                ensure!(allowed(sym, i, j), "{} entry ({},{}) outside the stored part", name, i, j);
                t.push((i, j, get(&val[p])));
            }
        }
        let b = dense(m, n, sym, &t);
        for i in 0..m {
            for j in 0..n {
                ensure!((a[i][j] - b[i][j]).norm() <= 1e-14, "{} ({},{}) is {} instead of {}", name, i, j, b[i][j], a[i][j]);
            }
        }
    }
    if sym != Sym::No {
        for i in 0..m {
            for j in 0..n {
                ensure!(a[i][j] == a[j][i], "flagged symmetric but ({},{}) differs", i, j);
            }
        }
    }
    Ok((sym, a))
}

fn samples(run: &mut Run) {
    run.section("samples", 1, |ctx, _| {
        type R = (CooMatrix, CscMatrix, CsrMatrix, f64);
        type C = (ComplexCooMatrix, ComplexCscMatrix, ComplexCsrMatrix, Complex64);
        // name, function, positive definite
        let reals: Vec<(&str, fn() -> R, Option<Sym>, bool)> = vec![
            ("tiny_1x1", Samples::tiny_1x1, None, false),
            ("positive_definite_3x3_lower", Samples::positive_definite_3x3_lower, Some(Sym::YesLower), true),
            ("positive_definite_3x3_upper", Samples::positive_definite_3x3_upper, Some(Sym::YesUpper), true),
            ("positive_definite_3x3_full", Samples::positive_definite_3x3_full, Some(Sym::YesFull), true),
            ("lower_symmetric_5x5", Samples::lower_symmetric_5x5, Some(Sym::YesLower), true),
            ("umfpack_unsymmetric_5x5", Samples::umfpack_unsymmetric_5x5, Some(Sym::No), false),
            ("mkl_unsymmetric_5x5", Samples::mkl_unsymmetric_5x5, Some(Sym::No), false),
            ("mkl_positive_definite_5x5_lower", Samples::mkl_positive_definite_5x5_lower, Some(Sym::YesLower), true),
            ("mkl_positive_definite_5x5_upper", Samples::mkl_positive_definite_5x5_upper, Some(Sym::YesUpper), true),
            ("mkl_symmetric_5x5_full", Samples::mkl_symmetric_5x5_full, Some(Sym::YesFull), false),
            ("unsymmetric_3x3 00", || Samples::unsymmetric_3x3(false, false), Some(Sym::No), false),
            ("unsymmetric_3x3 01", || Samples::unsymmetric_3x3(false, true), Some(Sym::No), false),
            ("unsymmetric_3x3 10", || Samples::unsymmetric_3x3(true, false), Some(Sym::No), false),
            ("unsymmetric_3x3 11", || Samples::unsymmetric_3x3(true, true), Some(Sym::No), false),
            ("block_unsymmetric_5x5 00", || Samples::block_unsymmetric_5x5(false, false), Some(Sym::No), false),
            ("block_unsymmetric_5x5 01", || Samples::block_unsymmetric_5x5(false, true), Some(Sym::No), false),
            ("block_unsymmetric_5x5 10", || Samples::block_unsymmetric_5x5(true, false), Some(Sym::No), false),
            ("block_unsymmetric_5x5 11", || Samples::block_unsymmetric_5x5(true, true), Some(Sym::No), false),
            ("mkl_symmetric_5x5_lower 00", || Samples::mkl_symmetric_5x5_lower(false, false), Some(Sym::YesLower), false),
            ("mkl_symmetric_5x5_lower 01", || Samples::mkl_symmetric_5x5_lower(false, true), Some(Sym::YesLower), false),
            ("mkl_symmetric_5x5_lower 10", || Samples::mkl_symmetric_5x5_lower(true, false), Some(Sym::YesLower), false),
            ("mkl_symmetric_5x5_lower 11", || Samples::mkl_symmetric_5x5_lower(true, true), Some(Sym::YesLower), false),
            ("mkl_symmetric_5x5_upper 00", || Samples::mkl_symmetric_5x5_upper(false, false), Some(Sym::YesUpper), false),
            ("mkl_symmetric_5x5_upper 01", || Samples::mkl_symmetric_5x5_upper(false, true), Some(Sym::YesUpper), false),
            ("mkl_symmetric_5x5_upper 10", || Samples::mkl_symmetric_5x5_upper(true, false), Some(Sym::YesUpper), false),
            ("mkl_symmetric_5x5_upper 11", || Samples::mkl_symmetric_5x5_upper(true, true), Some(Sym::YesUpper), false),
        ];
        let rect: Vec<(&str, fn() -> R)> = vec![
            ("rectangular_1x2 00", || Samples::rectangular_1x2(false, false)),
            ("rectangular_1x2 01", || Samples::rectangular_1x2(false, true)),
            ("rectangular_1x2 10", || Samples::rectangular_1x2(true, false)),
            ("rectangular_1x2 11", || Samples::rectangular_1x2(true, true)),
            ("rectangular_1x7", Samples::rectangular_1x7),
            ("rectangular_7x1", Samples::rectangular_7x1),
            ("rectangular_3x4", Samples::rectangular_3x4),
        ];
        let complexes: Vec<(&str, fn() -> C, Option<Sym>)> = vec![
            ("complex_tiny_1x1", Samples::complex_tiny_1x1, None),
            ("complex_symmetric_3x3_lower", Samples::complex_symmetric_3x3_lower, Some(Sym::YesLower)),
            ("complex_symmetric_3x3_upper", Samples::complex_symmetric_3x3_upper, Some(Sym::YesUpper)),
            ("complex_symmetric_3x3_full", Samples::complex_symmetric_3x3_full, Some(Sym::YesFull)),
            ("umfpack_complex_unsymmetric_5x5", Samples::umfpack_complex_unsymmetric_5x5, Some(Sym::No)),
            ("mkl_complex_positive_definite_5x5_lower", Samples::mkl_complex_positive_definite_5x5_lower, Some(Sym::YesLower)),
        ];
        let get_r: fn(&f64) -> Complex64 = |v| c(*v, 0.0);
        let get_c: fn(&Complex64) -> Complex64 = |v| *v;
        for (name, f, want, posdef) in reals {
            ctx.case(name.to_string(), |tr| {
                tr.op();
                let (coo, csc, csr, d) = f();
                let (sym, a) = sample(&coo, &csc, &csr, get_r)?;
                ensure!(want.is_none() || want == Some(sym), "the storage is {:?}", sym);
                let x = det(&a);
                ensure!(close(x.re, d, 1e-12), "determinant {} but {} is documented", x.re, d);
                if posdef {
                    for k in 1..=a.len() {
                        let sub: Vec<Vec<Complex64>> = a[..k].iter().map(|r| r[..k].to_vec()).collect();
                        ensure!(det(&sub).re > 0.0, "leading minor {} is {}", k, det(&sub).re);
                    }
                }
                Ok(())
            });
        }
        for (name, f) in rect {
            ctx.case(name.to_string(), |tr| {
                tr.op();
                let (coo, csc, csr, _) = f();
                sample(&coo, &csc, &csr, get_r)?;
                Ok(())
            });
        }
        ctx.case("complex_rectangular_4x3".to_string(), |tr| {
            tr.op();
            let (coo, csc, csr, _) = Samples::complex_rectangular_4x3();
            sample(&coo, &csc, &csr, get_c)?;
            Ok(())
        });
        for (name, f, want) in complexes {
            ctx.case(name.to_string(), |tr| {
                tr.op();
                let (coo, csc, csr, d) = f();
                let (sym, a) = sample(&coo, &csc, &csr, get_c)?;
                ensure!(want.is_none() || want == Some(sym), "the storage is {:?}", sym);
                let x = det(&a);
                ensure!((x - d).norm() <= 1e-10 * (1.0 + d.norm()), "determinant {} but {} is documented", x, d);
                Ok(())
            });
        }
        // the variants of one sample denote one matrix
        ctx.case("variants".to_string(), |tr| {
            let groups: Vec<Vec<R>> = vec![
                (0..4).map(|k| Samples::unsymmetric_3x3(k & 1 == 1, k & 2 == 2)).collect(),
                (0..4).map(|k| Samples::block_unsymmetric_5x5(k & 1 == 1, k & 2 == 2)).collect(),
                (0..9)
                    .map(|k| match k {
                        0..4 => Samples::mkl_symmetric_5x5_lower(k & 1 == 1, k & 2 == 2),
                        4..8 => Samples::mkl_symmetric_5x5_upper(k & 1 == 1, k & 2 == 2),
                        _ => Samples::mkl_symmetric_5x5_full(),
                    })
                    .collect(),
                (0..4).map(|k| Samples::rectangular_1x2(k & 1 == 1, k & 2 == 2)).collect(),
                vec![Samples::positive_definite_3x3_lower(), Samples::positive_definite_3x3_upper(), Samples::positive_definite_3x3_full()],
                vec![Samples::mkl_positive_definite_5x5_lower(), Samples::mkl_positive_definite_5x5_upper()],
            ];
            for (g, group) in groups.iter().enumerate() {
                let (_, a) = sample(&group[0].0, &group[0].1, &group[0].2, get_r)?;
                for (v, r) in group.iter().enumerate() {
                    tr.op();
                    let (_, b) = sample(&r.0, &r.1, &r.2, get_r)?;
                    for i in 0..a.len() {
                        for j in 0..a[i].len() {
                            ensure!((a[i][j] - b[i][j]).norm() <= 1e-14, "group {} variant {} differs at ({},{})", g, v, i, j);
                        }
                    }
                }
            }
            Ok(())
        });
    });
}

pub fn explore(run: &mut Run) {
    run.level("exploration", "every matrix, solution and right-hand side with components from the stated lists, every list of timings, every sequence of entries within the bounds, every sample");
    verification(run);
    statistics(run);
    samples(run);
}
