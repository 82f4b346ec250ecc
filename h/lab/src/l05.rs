//! L05: B-spline basis functions and curves

use mc::*;
use russell_lab::*;

/// Cox-de Boor recursion with the span containing u given explicitly (handles the last knot)
fn cdb(uu: &[f64], span: usize, i: usize, p: usize, u: f64) -> f64 {
    if p == 0 {
        return if i == span { 1.0 } else { 0.0 };
    }
    let mut s = 0.0;
    let d1 = uu[i + p] - uu[i];
    if d1 > 0.0 {
        s += (u - uu[i]) / d1 * cdb(uu, span, i, p - 1, u);
    }
    let d2 = uu[i + p + 1] - uu[i + 1];
    if d2 > 0.0 {
        s += (uu[i + p + 1] - u) / d2 * cdb(uu, span, i + 1, p - 1, u);
    }
    s
}

/// k-th derivative of the basis function
fn cdb_deriv(uu: &[f64], span: usize, i: usize, p: usize, u: f64, k: usize) -> f64 {
    if k == 0 {
        return cdb(uu, span, i, p, u);
    }
    if p == 0 {
        return 0.0;
    }
    let mut s = 0.0;
    let d1 = uu[i + p] - uu[i];
    if d1 > 0.0 {
        s += p as f64 / d1 * cdb_deriv(uu, span, i, p - 1, u, k - 1);
    }
    let d2 = uu[i + p + 1] - uu[i + 1];
    if d2 > 0.0 {
        s -= p as f64 / d2 * cdb_deriv(uu, span, i + 1, p - 1, u, k - 1);
    }
    s
}

/// span: last non-empty one at the upper end of the valid domain
fn span_of(uu: &[f64], p: usize, u: f64) -> usize {
    let nb = uu.len() - p - 1;
    (p..nb).rev().find(|&i| uu[i] < uu[i + 1] && u >= uu[i]).unwrap_or_else(|| (p..nb).find(|&i| uu[i] < uu[i + 1]).unwrap())
}

/// all knot vectors: clamped with interior multiplicities and spacing patterns, and unclamped ones
fn knot_vectors(p: usize, max_interior: usize) -> Vec<Vec<f64>> {
    let mut all = Vec::new();
    for ni in 0..=max_interior {
        for m in 0..pow(p, ni) {
            let mult = digits(m, p, ni);
            for s in 0..pow(2, ni + 1) {
                let gaps = digits(s, 2, ni + 1);
                let mut uu = vec![0.0; p + 1];
                let mut x = 0.0;
                for q in 0..ni {
                    x += 1.0 + 2.0 * gaps[q] as f64;
                    for _ in 0..=mult[q] {
                        uu.push(x);
                    }
                }
                x += 1.0 + 2.0 * gaps[ni] as f64;
                for _ in 0..=p {
                    uu.push(x);
                }
                all.push(uu);
            }
        }
    }
    for extra in 0..4 {
        all.push((0..2 * (p + 1) + extra).map(|i| i as f64).collect());
        all.push((0..2 * (p + 1) + extra).map(|i| (i * i) as f64 / 4.0).collect());
    }
    all
}

fn params(uu: &[f64], p: usize) -> Vec<f64> {
    let nb = uu.len() - p - 1;
    let (a, b) = (uu[p], uu[nb]);
    let h = (b - a) * 1e-9;
    let mut us = Vec::new();
    for i in p..nb {
        let (l, r) = (uu[i], uu[i + 1]);
        us.push(l);
        us.push(l + h);
        us.push(r - h);
        us.push(r);
        if r > l {
            us.extend([0.125, 0.5, 0.75].iter().map(|t| l + t * (r - l)));
        }
    }
    us.retain(|u| *u >= a && *u <= b);
    us.dedup();
    us
}

pub fn explore(run: &mut Run) {
    run.level(
        "model_checking",
        "every degree x knot vector (interior multiplicities x spacing patterns, clamped and unclamped) x scale x parameter (knots, neighbours, interior points) x derivative order x control-point dimension; every history of calls on one object up to the bound",
    );
    let pmax = run.pick(5, 6);
    let interior = run.pick(2, 3);
    let scales = [(1.0, 0.0), (1e-3, 0.0), (1e3, 0.0), (0.1, 0.0), (1.0, -2.5), (1.0, 300.0)];
    let mut work = Vec::new();
    for p in 1..=pmax {
        for uu in knot_vectors(p, interior) {
            work.push((p, uu));
        }
    }
    run.section("evaluation", work.len(), |ctx, w| {
        let (p, base) = &work[w];
        let p = *p;
        for (sc, sh) in scales {
            let uu: Vec<f64> = base.iter().map(|u| u * sc + sh).collect();
            let nb = uu.len() - p - 1;
            ctx.case(format!("p={} knots={:?}", p, uu), |t| {
                let mut b = Bspline::new(p, &uu)?;
                ensure!(b.num_basis() == nb, "number of basis functions {}", b.num_basis());
                let mut cc = Vector::new(1);
                ensure!(b.calc_point(&mut cc, uu[p], false).is_err(), "point without control points");
                for (k, nd) in [(nb - 1, 1), (nb + 1, 1), (nb, 0)] {
                    ensure!(b.set_control_points(&vec![vec![1.0; nd]; k]).is_err() || (k == 0), "{} control points of dimension {} accepted", k, nd);
                }
                let el = b.get_elements(1e-9 * sc);
                let expect: Vec<[usize; 2]> = (0..uu.len() - 1).filter(|&i| uu[i + 1] > uu[i]).map(|i| [i, i + 1]).collect();
                ensure!(el == expect, "elements {:?}", el);
                for ndim in [1, 3] {
                    let pts: Vec<Vec<f64>> = (0..nb).map(|i| (0..ndim).map(|d| crate::l01::ival(7 + d, i, d) as f64).collect()).collect();
                    b.set_control_points(&pts)?;
                    let mut cc = Vector::new(ndim);
                    ensure!(b.calc_point(&mut Vector::new(ndim + 1), uu[p], false).is_err(), "wrong dimension accepted");
                    for u in params(&uu, p) {
                        let span = span_of(&uu, p, u);
                        t.ops(4);
                        // basis functions
                        b.calc_basis(u)?;
                        let mut sum = 0.0;
                        for i in 0..nb {
                            let r = cdb(&uu, span, i, p, u);
                            let v = b.get_basis(i);
                            ensure!(near(v, r, 1e-11), "N{}({}) is {} instead of {}", i, u, v, r);
                            ensure!(v >= -1e-13, "N{}({}) = {} is negative", i, u, v);
                            if u < uu[i] || u > uu[i + p + 1] {
                                ensure!(v == 0.0, "N{}({}) = {} outside of its support", i, u, v);
                            }
                            sum += v;
                            let v = b.recursive_basis(u, i);
                            // (the recursive version perturbs the last parameter)
                            ensure!(near(v, r, 1e-10), "recursive N{}({}) is {} instead of {}", i, u, v, r);
                        }
                        ensure!(near(sum, 1.0, 1e-12), "sum of basis functions is {} at {}", sum, u);
                        // derivatives
                        for upto in [0, p / 2, p] {
                            b.calc_basis_and_derivs(u, upto)?;
                            for i in 0..nb {
                                ensure!(near(b.get_basis(i), cdb(&uu, span, i, p, u), 1e-11), "N{}({}) after derivatives", i, u);
                                for k in 0..=upto {
                                    let r = cdb_deriv(&uu, span, i, p, u, k);
                                    let v = b.get_basis_deriv(i, k);
                                    ensure!(near(v, r, 1e-9 * (1.0 + f64::powi(sc, -(k as i32)))), "d{}N{}({}) is {} instead of {}", k, i, u, v, r);
                                }
                            }
                        }
                        ensure!(b.calc_basis_and_derivs(u, p + 1).is_err(), "derivative of order p+1 accepted");
                        // curve
                        for k in 0..=p {
                            let r: Vec<f64> = (0..ndim).map(|d| (0..nb).map(|i| pts[i][d] * cdb_deriv(&uu, span, i, p, u, k)).sum()).collect();
                            if k == 0 {
                                for recursive in [false, true] {
                                    b.calc_point(&mut cc, u, recursive)?;
                                    for d in 0..ndim {
                                        ensure!(near(cc[d], r[d], 1e-9), "C({}) (recursive={}) is {} instead of {}", u, recursive, cc[d], r[d]);
                                    }
                                }
                            }
                            for control in [false, true] {
                                b.calc_curve_derivs(u, p, control);
                                b.get_curve_deriv(&mut cc, k);
                                for d in 0..ndim {
                                    ensure!(near(cc[d], r[d], 1e-8 * (1.0 + f64::powi(sc, -(k as i32)))), "C^({})({}) (control={}) is {} instead of {}", k, u, control, cc[d], r[d]);
                                }
                            }
                        }
                        b.calc_curve_derivs(u, p + 3, false);
                        b.get_curve_deriv(&mut cc, p + 1);
                        ensure!(cc.as_data().iter().all(|v| *v == 0.0), "derivative of order p+1 is not zero");
                    }
                    for u in [uu[0] - 1e-3 * sc, uu[uu.len() - 1] + 1e-3 * sc] {
                        ensure!(b.calc_basis(u).is_err() && b.calc_basis_and_derivs(u, 1).is_err(), "u={} out of range accepted", u);
                    }
                }
                Ok(())
            });
        }
    });
    // long knot vectors: every parameter finds its span
    let many = run.pick(40, 120);
    run.section("long knot vectors", many * pmax, |ctx, w| {
        let (ni, p) = (w / pmax + 1, w % pmax + 1);
        for pattern in 0..4 {
            let mut uu = vec![0.0; p + 1];
            for q in 1..=ni {
                let x = match pattern {
                    1 => (q * q) as f64,
                    2 => (q + q / 3 * 5) as f64,
                    _ => q as f64,
                };
                for _ in 0..if pattern == 3 { 1 + q % p } else { 1 } {
                    uu.push(x);
                }
            }
            let end = uu[uu.len() - 1] + 2.0;
            uu.extend(vec![end; p + 1]);
            let nb = uu.len() - p - 1;
            ctx.case(format!("p={} interior={} pattern={}", p, ni, pattern), |t| {
                let mut b = Bspline::new(p, &uu)?;
                let pts: Vec<Vec<f64>> = (0..nb).map(|i| vec![crate::l01::ival(3, i, 0) as f64]).collect();
                b.set_control_points(&pts)?;
                let mut cc = Vector::new(1);
                for u in params(&uu, p) {
                    t.ops(3);
                    let span = span_of(&uu, p, u);
                    b.calc_basis_and_derivs(u, 1)?;
                    let (mut c, mut d) = (0.0, 0.0);
                    for i in 0..nb {
                        let inside = i + p >= span && i <= span;
                        let r = if inside { cdb(&uu, span, i, p, u) } else { 0.0 };
                        ensure!(near(b.get_basis(i), r, 1e-10), "N{}({}) is {} instead of {}", i, u, b.get_basis(i), r);
                        let dr = if inside { cdb_deriv(&uu, span, i, p, u, 1) } else { 0.0 };
                        ensure!(near(b.get_basis_deriv(i, 1), dr, 1e-9), "dN{}({}) is {} instead of {}", i, u, b.get_basis_deriv(i, 1), dr);
                        c += r * pts[i][0];
                        d += dr * pts[i][0];
                    }
                    b.calc_point(&mut cc, u, false)?;
                    ensure!(near(cc[0], c, 1e-8), "C({}) is {} instead of {}", u, cc[0], c);
                    for control in [false, true] {
                        b.calc_curve_derivs(u, 1, control);
                        b.get_curve_deriv(&mut cc, 1);
                        ensure!(near(cc[0], d, 1e-7), "C'({}) (control={}) is {} instead of {}", u, control, cc[0], d);
                    }
                }
                Ok(())
            });
        }
    });
    // high degrees without interior knots: Bernstein polynomials
    run.section("high degrees", 20, |ctx, w| {
        let p = w + 6;
        // k-th derivative of the i-th Bernstein polynomial of degree q
        fn bern(q: usize, i: i64, k: usize, x: f64) -> f64 {
            if i < 0 || i > q as i64 {
                return 0.0;
            }
            if k > 0 {
                return q as f64 * (bern(q - 1, i - 1, k - 1, x) - bern(q - 1, i, k - 1, x));
            }
            let mut c = 1.0;
            for j in 0..i as usize {
                c *= (q - j) as f64 / (j + 1) as f64;
            }
            c * x.powi(i as i32) * (1.0 - x).powi(q as i32 - i as i32)
        }
        for (a, len) in [(0.0, 1.0), (-2.0, 4.0)] {
            let mut uu = vec![a; p + 1];
            uu.extend(vec![a + len; p + 1]);
            for ix in 0..=8 {
                ctx.case(format!("p={} a={} x={}/8", p, a, ix), |t| {
                    t.ops(4);
                    let x = ix as f64 / 8.0;
                    let u = a + len * x;
                    t.state_f64(&[p as f64, u]);
                    let mut b = Bspline::new(p, &uu)?;
                    let pts: Vec<Vec<f64>> = (0..=p).map(|i| vec![(i % 4) as f64 - 1.0, (i * i % 7) as f64]).collect();
                    b.set_control_points(&pts)?;
                    b.calc_basis_and_derivs(u, 3)?;
                    let mut scale = 1.0;
                    let mut c = vec![vec![0.0; 2]; 4];
                    for k in 0..4 {
                        for i in 0..=p {
                            let r = bern(p, i as i64, k, x) / len.powi(k as i32);
                            let got = b.get_basis_deriv(i, k);
                            ensure!(near(got, r, 1e-12 * scale), "derivative {k} of N{i}({u}) is {got} instead of {r}");
                            ensure!(k > 0 || near(b.get_basis(i), r, 1e-12), "N{i}({u}) is {} instead of {r}", b.get_basis(i));
                            for d in 0..2 {
                                c[k][d] += r * pts[i][d];
                            }
                        }
                        scale *= 2.0 * (p - k) as f64 / len;
                    }
                    let mut cc = Vector::new(2);
                    b.calc_point(&mut cc, u, false)?;
                    ensure!(near(cc[0], c[0][0], 1e-11) && near(cc[1], c[0][1], 1e-11), "point {:?} instead of {:?}", cc.as_data(), c[0]);
                    for control in [false, true] {
                        b.calc_curve_derivs(u, 3, control);
                        let mut scale = 1.0;
                        for k in 0..4 {
                            b.get_curve_deriv(&mut cc, k);
                            ensure!(near(cc[0], c[k][0], 1e-10 * scale) && near(cc[1], c[k][1], 1e-10 * scale), "derivative {k} of the curve {:?} instead of {:?} (control={control})", cc.as_data(), c[k]);
                            scale *= 2.0 * (p - k) as f64 / len;
                        }
                    }
                    Ok(())
                });
            }
        }
    });
    run.section("refusals", 6, |ctx, p| {
        for nk in 0..16 {
            ctx.case(format!("p={} knots={}", p, nk), |t| {
                t.op();
                let uu: Vec<f64> = (0..nk).map(|i| i as f64).collect();
                let ok = p >= 1 && nk >= 2 * (p + 1);
                ensure!(Bspline::new(p, &uu).is_ok() == ok, "accepted = {}", !ok);
                Ok(())
            });
        }
    });
    // histories
    const NOPS: usize = 12;
    let depth = run.pick(4, 5);
    let kvs: Vec<(usize, Vec<f64>)> = vec![(1, vec![0.0, 0.0, 1.0, 2.0, 2.0]), (2, vec![0.0, 0.0, 0.0, 1.0, 2.0, 4.0, 4.0, 4.0]), (3, vec![0.0, 0.0, 0.0, 0.0, 1.0, 1.0, 3.0, 3.0, 3.0, 3.0])];
    run.section("histories", kvs.len() * NOPS * NOPS, |ctx, w| {
        let (p, uu) = &kvs[w % kvs.len()];
        let p = *p;
        let first = w / kvs.len();
        let nb = uu.len() - p - 1;
        let end = uu[uu.len() - 1];
        for i in 0..pow(NOPS, depth - 2) {
            let mut ops = vec![first % NOPS, first / NOPS];
            ops.extend(digits(i, NOPS, depth - 2));
            ctx.case(format!("p={} {:?}", p, ops), |t| {
                let mut b = Bspline::new(p, uu)?;
                let mut pts: Option<Vec<Vec<f64>>> = None;
                let mut last: Option<f64> = None; // last parameter of calc_basis
                let mut other: Vec<f64> = Vec::new(); // parameters of later evaluations of another kind
                let mut derivs: Option<(f64, usize)> = None;
                let mut curve: Option<(f64, usize)> = None;
                for &op in &ops {
                    t.op();
                    match op {
                        0 | 1 => {
                            let u = [0.5, end][op];
                            b.calc_basis(u)?;
                            last = Some(u);
                            other.clear();
                            derivs = None;
                        }
                        2 | 3 => {
                            let (u, k) = [(1.0, 1), (end - 0.25, p)][op - 2];
                            b.calc_basis_and_derivs(u, k)?;
                            last = Some(u);
                            other.clear();
                            derivs = Some((u, k));
                        }
                        4 | 5 | 6 => {
                            let nd = op - 3;
                            let c: Vec<Vec<f64>> = (0..nb).map(|i| (0..nd).map(|d| crate::l01::ival(op, i, d) as f64).collect()).collect();
                            b.set_control_points(&c)?;
                            pts = Some(c);
                            curve = None;
                        }
                        7 | 8 => {
                            let u = [1.75, 0.0][op - 7];
                            match &pts {
                                None => ensure!(b.calc_point(&mut Vector::new(1), u, op == 8).is_err(), "point without control points"),
                                Some(c) => {
                                    let mut cc = Vector::new(c[0].len());
                                    b.calc_point(&mut cc, u, op == 8)?;
                                    let span = span_of(uu, p, u);
                                    for d in 0..c[0].len() {
                                        let r: f64 = (0..nb).map(|i| c[i][d] * cdb(uu, span, i, p, u)).sum();
                                        ensure!(near(cc[d], r, 1e-9), "point {} instead of {}", cc[d], r);
                                    }
                                    other.push(u);
                                    derivs = None;
                                }
                            }
                        }
                        9 | 10 => {
                            if let Some(_) = &pts {
                                let u = [end, 1.25][op - 9];
                                b.calc_curve_derivs(u, p, op == 10);
                                curve = Some((u, p));
                                other.push(u);
                                derivs = None;
                            }
                        }
                        _ => {
                            ensure!(b.calc_basis(end + 1.0).is_err() && b.calc_basis_and_derivs(-0.5, 0).is_err() && b.set_control_points(&vec![vec![1.0]; nb + 1]).is_err(), "invalid call accepted");
                        }
                    }
                    // basis functions: of the last parameter
                    if last.is_some() {
                        let matches = |u: f64| (0..nb).all(|i| near(b.get_basis(i), cdb(uu, span_of(uu, p, u), i, p, u), 1e-11));
                        let ok = last.iter().chain(other.iter()).any(|u| matches(*u));
                        ensure!(ok, "basis functions {:?} after {:?} are neither those at {:?} nor those at {:?}", (0..nb).map(|i| b.get_basis(i)).collect::<Vec<_>>(), ops, last, other);
                    }
                    if let Some((u, upto)) = derivs {
                        for i in 0..nb {
                            for k in 0..=upto {
                                let r = cdb_deriv(uu, span_of(uu, p, u), i, p, u, k);
                                ensure!(near(b.get_basis_deriv(i, k), r, 1e-10), "derivative {} of N{} is {} instead of {}", k, i, b.get_basis_deriv(i, k), r);
                            }
                        }
                    }
                    if let (Some((u, upto)), Some(c)) = (curve, &pts) {
                        for k in 0..=upto {
                            let mut cc = Vector::new(c[0].len());
                            b.get_curve_deriv(&mut cc, k);
                            for d in 0..c[0].len() {
                                let r: f64 = (0..nb).map(|i| c[i][d] * cdb_deriv(uu, span_of(uu, p, u), i, p, u, k)).sum();
                                ensure!(near(cc[d], r, 1e-9), "curve derivative {} is {} instead of {}", k, cc[d], r);
                            }
                        }
                    }
                    t.state(&(p, pts.as_ref().map(|c| c[0].len()), last.map(f64::to_bits), other.last().map(|u| u.to_bits()), derivs.map(|d| d.0.to_bits()), curve.map(|c| c.0.to_bits())));
                }
                Ok(())
            });
        }
    });
}
