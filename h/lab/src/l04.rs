//! L04: polynomial interpolants

use mc::*;
use russell_lab::math::PI;
use russell_lab::*;

/// T_k, T_k', T_k'' by recurrence
fn cheb(k: usize, x: f64) -> (f64, f64, f64) {
    let (mut a, mut b) = ((1.0, 0.0, 0.0), (x, 1.0, 0.0));
    if k == 0 {
        return a;
    }
    for _ in 1..k {
        let c = (2.0 * x * b.0 - a.0, 2.0 * b.0 + 2.0 * x * b.1 - a.1, 4.0 * b.1 + 2.0 * x * b.2 - a.2);
        a = b;
        b = c;
    }
    b
}

/// monomial and derivatives
fn mono(k: usize, x: f64) -> (f64, f64, f64) {
    let p = |e: i32| if e < 0 { 0.0 } else { x.powi(e) };
    let kf = k as f64;
    (p(k as i32), if k == 0 { 0.0 } else { kf * p(k as i32 - 1) }, if k < 2 { 0.0 } else { kf * (kf - 1.0) * p(k as i32 - 2) })
}

fn ref_points(grid: InterpGrid, nn: usize) -> Vec<f64> {
    let n = nn as f64;
    (0..=nn)
        .map(|j| {
            let j = j as f64;
            match grid {
                InterpGrid::Uniform => -1.0 + 2.0 * j / n,
                InterpGrid::ChebyshevGauss => -f64::cos((2.0 * j + 1.0) * PI / (2.0 * n + 2.0)),
                InterpGrid::ChebyshevGaussLobatto => -f64::cos(j * PI / n),
            }
        })
        .collect()
}

fn stations(xx: &[f64]) -> Vec<f64> {
    let mut s = vec![-1.0, 1.0, -0.97, 0.0, 0.3, 1.0 / 3.0, 0.999];
    for (i, &x) in xx.iter().enumerate() {
        s.push(x);
        for d in [1e-16, 1e-15, 3e-15, 1e-13, 1e-9, 1e-6, 1e-4, 1e-2] {
            s.push(x + d);
            s.push(x - d);
        }
        if i > 0 {
            s.push(0.5 * (x + xx[i - 1]));
        }
    }
    s.retain(|x| *x >= -1.0 && *x <= 1.0);
    s
}

fn lagrange(run: &mut Run) {
    let grids = [InterpGrid::Uniform, InterpGrid::ChebyshevGauss, InterpGrid::ChebyshevGaussLobatto];
    let nmax = run.pick(24, 48);
    run.section("lagrange", 9 * nmax, |ctx, w| {
        let grid = grids[w % 3];
        let mode = (w / 3) % 3; // 0: eta, 1: no eta, 2: alternative normalization
        let nn = w / 9 + 1;
        if grid == InterpGrid::Uniform && nn > 14 {
            return;
        }
        let mut params = InterpParams::new();
        params.grid_type = grid;
        params.no_eta_normalization = mode == 1;
        params.eta_cutoff = if mode == 2 { 0 } else { 700 };
        params.lebesgue_estimate_nstation = 41;
        params.error_estimate_nstation = 33;
        let xx = ref_points(grid, nn);
        // amplification of rounding errors
        let amp = if grid == InterpGrid::Uniform { f64::powi(2.0, nn as i32) } else { 10.0 };
        let n2 = (nn * nn) as f64;
        for k in 0..=nn {
            for (kind, f) in [("T", cheb as fn(usize, f64) -> (f64, f64, f64)), ("x^", mono)] {
                ctx.case(format!("{:?} mode={} N={} {}{}", grid, mode, nn, kind, k), |t| {
                    let mut it = InterpLagrange::new(nn, Some(params))?;
                    ensure!(it.get_degree() == nn && it.get_grid_type() == grid, "degree or grid type");
                    let p = it.get_points();
                    ensure!(p.dim() == nn + 1, "number of points {}", p.dim());
                    for j in 0..=nn {
                        ensure!(near(p[j], xx[j], 1e-14), "point {} is {} instead of {}", j, p[j], xx[j]);
                    }
                    let p = p.clone();
                    let uu = Vector::initialized(nn + 1, |j| f(k, p[j]).0);
                    for x in stations(p.as_data()) {
                        t.ops(3);
                        let r = f(k, x);
                        let dx = p.as_data().iter().map(|q| (x - q).abs()).fold(f64::INFINITY, f64::min);
                        let v = it.eval(x, &uu)?;
                        ensure!(near(v, r.0, 1e-12 * amp), "value at {} is {} instead of {}", x, v, r.0);
                        let v = it.eval_deriv1(x, &uu)?;
                        let t1 = 1e-12 * amp * n2.max(4.0) + if dx > 2.5e-15 { 1e-14 * amp / dx.max(1e-15) } else { 0.0 };
                        ensure!(near(v, r.1, t1), "first derivative at {} is {} instead of {} (tol {})", x, v, r.1, t1);
                        let v = it.eval_deriv2(x, &uu)?;
                        let t2 = 1e-12 * amp * n2.max(4.0) * n2.max(4.0) + if dx > 2.5e-15 { 1e-14 * amp / (dx * dx).max(1e-30) } else { 0.0 };
                        ensure!(near(v, r.2, t2), "second derivative at {} is {} instead of {} (tol {})", x, v, r.2, t2);
                    }
                    ensure!(it.get_dd1().is_err() && it.get_dd2().is_err(), "matrices available before being computed");
                    if k % 2 == 0 {
                        it.calc_dd1_matrix();
                        ensure!(it.get_dd2().is_err(), "second matrix available before being computed");
                    }
                    it.calc_dd2_matrix();
                    t.ops(2);
                    let (d1, d2) = (it.get_dd1()?, it.get_dd2()?);
                    for i in 0..=nn {
                        let a: f64 = (0..=nn).map(|j| d1.get(i, j) * uu[j]).sum();
                        let b: f64 = (0..=nn).map(|j| d2.get(i, j) * uu[j]).sum();
                        let r = f(k, p[i]);
                        ensure!(near(a, r.1, 1e-12 * amp * n2.max(4.0)), "D1 row {} gives {} instead of {}", i, a, r.1);
                        ensure!(near(b, r.2, 1e-12 * amp * n2.max(4.0) * n2.max(4.0)), "D2 row {} gives {} instead of {}", i, b, r.2);
                    }
                    let e = it.estimate_max_error(&mut 0, |x, _: &mut NoArgs| Ok(f(k, x).0))?;
                    ensure!(e <= 1e-12 * amp, "estimated error {}", e);
                    let off = it.estimate_max_error(&mut 0, |x, _: &mut NoArgs| Ok(f(k, x).0 + if p.as_data().contains(&x) { 0.0 } else { 0.5 }))?;
                    let all_nodes = (0..33).all(|q| p.as_data().contains(&(-1.0 + 2.0 * q as f64 / 32.0)));
                    ensure!(all_nodes || near(off, 0.5, 1e-10 * amp), "estimated error of a shifted function is {}", off);
                    let e3 = it.estimate_max_error_all(grid == InterpGrid::Uniform, &mut 0, |x, _: &mut NoArgs| Ok(f(k, x).0), |x, _: &mut NoArgs| Ok(f(k, x).1), |x, _: &mut NoArgs| Ok(f(k, x).2))?;
                    ensure!(e3.0 <= 1e-12 * amp && e3.1 <= 1e-10 * amp * n2.max(4.0), "estimated errors {:?}", e3);
                    Ok(())
                });
            }
        }
        ctx.case(format!("{:?} mode={} N={} cardinal", grid, mode, nn), |t| {
            let it = InterpLagrange::new(nn, Some(params))?;
            let p = it.get_points().clone();
            for x in stations(p.as_data()) {
                let mut sum = 0.0;
                for j in 0..=nn {
                    t.op();
                    let l = it.psi(j, x)?;
                    let r: f64 = (0..=nn).filter(|&k| k != j).map(|k| (x - p[k]) / (p[j] - p[k])).product();
                    ensure!(near(l, r, 1e-11 * amp), "cardinal {} at {} is {} instead of {}", j, x, l, r);
                    sum += l;
                }
                ensure!(near(sum, 1.0, 1e-11 * amp), "cardinal functions sum to {} at {}", sum, x);
            }
            // weights: those of the definition up to a common factor
            let weight = |j: usize| -> f64 { it.get_lambda()[j] * (0..=nn).filter(|&k| k != j).map(|k| p[j] - p[k]).product::<f64>() };
            ensure!(it.get_lambda().dim() == nn + 1 && it.get_xrange() == (-1.0, 1.0), "weights or range");
            ensure!((1..=nn).all(|j| rel(weight(j), weight(0), 1e-11 * amp)), "weights {:?}", it.get_lambda().as_data());
            // Lebesgue constant at the same stations
            let mut best: f64 = 0.0;
            for s in 0..41 {
                let x = -1.0 + 2.0 * s as f64 / 40.0;
                let v: f64 = (0..=nn).map(|j| (0..=nn).filter(|&k| k != j).map(|k| (x - p[k]) / (p[j] - p[k])).product::<f64>().abs()).sum();
                best = best.max(v);
            }
            t.op();
            let l = it.estimate_lebesgue_constant();
            ensure!(rel(l, best, 1e-9 * amp), "Lebesgue constant {} instead of {}", l, best);
            // refusals
            let u = Vector::new(nn + 1);
            for x in [-1.0 - 1e-9, 1.0 + 1e-9, 2.0] {
                ensure!(it.psi(0, x).is_err() && it.eval(x, &u).is_err() && it.eval_deriv1(x, &u).is_err() && it.eval_deriv2(x, &u).is_err(), "x={} accepted", x);
            }
            ensure!(it.psi(nn + 1, 0.0).is_err(), "j=N+1 accepted");
            for d in [nn, nn + 2] {
                let u = Vector::new(d);
                ensure!(it.eval(0.1, &u).is_err() && it.eval_deriv1(0.1, &u).is_err() && it.eval_deriv2(0.1, &u).is_err(), "wrong data size accepted");
            }
            Ok(())
        });
    });
    // large degrees: value, node derivatives and matrices stay finite and consistent
    let big: &[usize] = if run.thorough() { &[64, 128, 300, 699, 700, 701, 1024, 2048] } else { &[64, 128, 256] };
    run.section("lagrange-large", big.len() * 2, |ctx, w| {
        let grid = grids[1 + w % 2];
        let nn = big[w / 2];
        ctx.case(format!("{:?} N={}", grid, nn), |t| {
            let mut params = InterpParams::new();
            params.grid_type = grid;
            let it = InterpLagrange::new(nn, Some(params))?;
            let p = it.get_points().clone();
            let uu = Vector::initialized(nn + 1, |j| f64::sin(3.0 * p[j] + 0.5));
            for s in 0..=40 {
                let x = -1.0 + s as f64 / 20.0;
                t.ops(2);
                let v = it.eval(x, &uu)?;
                ensure!(near(v, f64::sin(3.0 * x + 0.5), 1e-10), "value at {} is {}", x, v);
                let dx = p.as_data().iter().map(|q| (x - q).abs()).fold(f64::INFINITY, f64::min);
                let v = it.eval_deriv1(x, &uu)?;
                ensure!(near(v, 3.0 * f64::cos(3.0 * x + 0.5), 1e-6 + 1e-11 / dx.max(1e-12)), "derivative at {} is {}", x, v);
            }
            Ok(())
        });
    });
    run.section("lagrange-refusals", 1, |ctx, _| {
        for (nn, leb, err, ok) in [(0, 10, 10, false), (2049, 10, 10, false), (1, 1, 10, false), (1, 10, 1, false), (1, 2, 2, true), (2048, 2, 2, true)] {
            ctx.case(format!("N={} {} {}", nn, leb, err), |t| {
                t.op();
                let mut p = InterpParams::new();
                p.lebesgue_estimate_nstation = leb;
                p.error_estimate_nstation = err;
                ensure!(InterpLagrange::new(nn, Some(p)).is_ok() == ok, "accepted = {}", !ok);
                Ok(())
            });
        }
    });
    // histories of cached matrices and evaluations
    run.section("lagrange-histories", 3 * 6, |ctx, w| {
        let grid = grids[w % 3];
        let nn = w / 3 + 1;
        let mut params = InterpParams::new();
        params.grid_type = grid;
        let depth = 4;
        for i in 0..pow(6, depth) {
            let ops = digits(i, 6, depth);
            ctx.case(format!("{:?} N={} {:?}", grid, nn, ops), |t| {
                let fresh = || InterpLagrange::new(nn, Some(params)).unwrap();
                let mut it = fresh();
                let uu = Vector::initialized(nn + 1, |j| [1.0, -2.0, 0.5, 3.0, 7.0, -1.0, 2.0][j % 7]);
                let (mut has1, mut has2) = (false, false);
                for &op in &ops {
                    t.op();
                    match op {
                        0 => {
                            it.calc_dd1_matrix();
                            has1 = true;
                        }
                        1 => {
                            it.calc_dd2_matrix();
                            has1 = true;
                            has2 = true;
                        }
                        2 => ensure!(it.eval(0.4, &uu)? == fresh().eval(0.4, &uu)?, "eval depends on the history"),
                        3 => ensure!(it.eval_deriv1(-1.0, &uu)? == fresh().eval_deriv1(-1.0, &uu)?, "deriv1 depends on the history"),
                        4 => ensure!(it.eval_deriv2(0.7, &uu)? == fresh().eval_deriv2(0.7, &uu)?, "deriv2 depends on the history"),
                        _ => it = it.clone(),
                    }
                    ensure!(it.get_dd1().is_ok() == has1 && it.get_dd2().is_ok() == has2, "availability of matrices");
                    let mut other = fresh();
                    other.calc_dd2_matrix();
                    if has1 {
                        ensure!(it.get_dd1()?.as_data() == other.get_dd1()?.as_data(), "D1 depends on the history");
                    }
                    if has2 {
                        ensure!(it.get_dd2()?.as_data() == other.get_dd2()?.as_data(), "D2 depends on the history");
                    }
                    t.state(&(nn, w % 3, has1, has2));
                }
                Ok(())
            });
        }
    });
}

fn chebyshev(run: &mut Run) {
    let ranges = [(-1.0, 1.0), (0.0, 1.0), (-4.0, 9.0), (2.0, 2.001), (-1e3, -10.0)];
    let nmax = run.pick(20, 40);
    let to_z = |x: f64, r: (f64, f64)| (2.0 * x - r.1 - r.0) / (r.1 - r.0);
    run.section("chebyshev", ranges.len() * (nmax + 1), |ctx, w| {
        let r = ranges[w % ranges.len()];
        let nn = w / ranges.len();
        for extra in [0, 3] {
            for k in 0..=nn {
                ctx.case(format!("N={} Nmax={} {:?} T{}", nn, nn + extra, r, k), |t| {
                    let mut it = InterpChebyshev::new(nn + extra, r.0, r.1)?;
                    ensure!(!it.is_ready() && it.eval(r.0).is_err() && it.eval_using_trig(r.0).is_err() && it.get_xy_data().is_err(), "ready before data");
                    let f = |x: f64| cheb(k, to_z(x, r)).0;
                    // the mapping onto [-1,1] loses digits on narrow ranges
                    let tol = 1e-9 + 1e-15 * (nn * nn) as f64 * (r.0.abs() + r.1.abs()) / (r.1 - r.0);
                    t.op();
                    it.set_function(nn, &mut 0, |x, _: &mut NoArgs| Ok(f(x)))?;
                    let mut jt = InterpChebyshev::new(nn + extra, r.0, r.1)?;
                    let grid: Vec<f64> = (0..=nn).map(|j| if nn == 0 { (r.0 + r.1) / 2.0 } else { (r.1 + r.0 - (r.1 - r.0) * f64::cos(PI * j as f64 / nn as f64)) / 2.0 }).collect();
                    let data: Vec<f64> = grid.iter().map(|&x| f(x)).collect();
                    t.op();
                    jt.set_data(&data)?;
                    for it in [&it, &jt] {
                        ensure!(it.is_ready() && it.get_degree() == nn && it.get_range() == (r.0, r.1, r.1 - r.0), "getters");
                        for s in 0..=24 {
                            let x = r.0 + (r.1 - r.0) * s as f64 / 24.0;
                            t.ops(2);
                            ensure!(near(it.eval(x)?, f(x), tol), "value at {} is {} instead of {}", x, it.eval(x)?, f(x));
                            ensure!(near(it.eval_using_trig(x)?, f(x), tol), "trig value at {} is {} instead of {}", x, it.eval_using_trig(x)?, f(x));
                        }
                        for (j, &x) in grid.iter().enumerate() {
                            ensure!(near(it.eval(x)?, data[j], tol), "value at node {} is {} instead of {}", x, it.eval(x)?, data[j]);
                        }
                        let e = it.estimate_max_error(17, &mut 0, |x, _: &mut NoArgs| Ok(f(x)))?;
                        ensure!(e < tol, "estimated error {}", e);
                        if nn > 0 {
                            let (x, y) = it.get_xy_data()?;
                            for j in 0..=nn {
                                ensure!(near(x[j], grid[j], 1e-12 * (r.0.abs() + r.1.abs())), "x data {} is {}", j, x[j]);
                                ensure!(near(y[j], data[j], tol), "y data {} is {} instead of {}", j, y[j], data[j]);
                            }
                            let c = it.get_coefficients();
                            for j in 0..=nn {
                                ensure!(near(c[j], if j == k { 1.0 } else { 0.0 }, 1e-10), "coefficient {} is {}", j, c[j]);
                            }
                        } else {
                            let (_, y) = it.get_xy_data()?;
                            ensure!(y.dim() == 1 && y[0] == 1.0, "y data of a constant is {:?}", y.as_data());
                        }
                    }
                    Ok(())
                });
            }
        }
    });
    // adaptive construction of polynomials with all coefficients present
    run.section("chebyshev-adaptive", 8, |ctx, deg| {
        for nmax in 0..12usize {
            for r in [(-1.0, 1.0), (0.0, 2.5), (-7.0, -3.0)] {
                for pat in 0..3 {
                    ctx.case(format!("deg={} nmax={} {:?} pattern={}", deg, nmax, r, pat), |t| {
                        let f = |x: f64| (0..=deg).map(|k| (1.0 + (k % (pat + 1)) as f64) * cheb(k, to_z(x, r)).0).sum::<f64>();
                        let mut it = InterpChebyshev::new(nmax, r.0, r.1)?;
                        t.op();
                        let res = it.adapt_function(1e-8, &mut 0, |x, _: &mut NoArgs| Ok(f(x)));
                        if deg <= nmax {
                            res?;
                            ensure!(it.get_degree() >= deg, "degree {} below {}", it.get_degree(), deg);
                        } else {
                            ensure!(res.is_err(), "converged with degree {} although the polynomial has degree {} and the bound is {}", it.get_degree(), deg, nmax);
                            ensure!(it.eval(r.0).is_err(), "usable after a failed construction");
                            return Ok(());
                        }
                        for s in 0..=20 {
                            let x = r.0 + (r.1 - r.0) * s as f64 / 20.0;
                            ensure!(near(it.eval(x)?, f(x), 1e-7), "value at {} is {} instead of {}", x, it.eval(x)?, f(x));
                        }
                        // the same from data
                        let np = deg + 2;
                        {
                            let data: Vec<f64> = (0..np).map(|j| f((r.1 + r.0 - (r.1 - r.0) * f64::cos(PI * j as f64 / (np - 1) as f64)) / 2.0)).collect();
                            let mut it = InterpChebyshev::new(nmax, r.0, r.1)?;
                            t.op();
                            it.adapt_data(1e-8, &data)?;
                            for s in 0..=20 {
                                let x = r.0 + (r.1 - r.0) * s as f64 / 20.0;
                                ensure!(near(it.eval(x)?, f(x), 1e-7), "adapt_data: value at {} is {} instead of {}", x, it.eval(x)?, f(x));
                            }
                        }
                        Ok(())
                    });
                }
            }
        }
    });
    // general data: linear interpolation onto the grid reproduces straight lines
    run.section("chebyshev-general", 8, |ctx, np| {
        for mask in 0..pow(3, np.saturating_sub(2)) {
            ctx.case(format!("np={} spacing={}", np, mask), |t| {
                let mut x = vec![-1.5];
                for d in digits(mask, 3, np.saturating_sub(2)) {
                    x.push(x.last().unwrap() + 0.5 * (d + 1) as f64);
                }
                let xb = x.last().unwrap() + 1.0;
                x.push(xb);
                let mut it = InterpChebyshev::new(10, -1.5, xb)?;
                let y: Vec<f64> = x.iter().map(|v| 2.0 - 3.0 * v).collect();
                t.op();
                it.set_gen_data(&x, &y)?;
                for s in 0..=10 {
                    let u = -1.5 + (xb + 1.5) * s as f64 / 10.0;
                    ensure!(near(it.eval(u)?, 2.0 - 3.0 * u, 1e-9), "value at {} is {}", u, it.eval(u)?);
                }
                let y: Vec<f64> = x.iter().map(|v| v * v).collect();
                it.set_gen_data(&x, &y)?;
                let (cx, cy) = it.get_xy_data()?;
                for i in 0..cx.dim() {
                    let j = (1..x.len()).find(|&j| cx[i] <= x[j]).unwrap_or(x.len() - 1);
                    let r = y[j - 1] + (y[j] - y[j - 1]) * (cx[i] - x[j - 1]) / (x[j] - x[j - 1]);
                    ensure!(near(cy[i], r, 1e-9), "grid value {} is {} instead of {}", i, cy[i], r);
                }
                let bad = x.iter().map(|v| v + 0.1).collect::<Vec<_>>();
                ensure!(it.set_gen_data(&bad, &y).is_err() && it.set_gen_data(&x, &y[1..]).is_err() && it.set_gen_data(&[], &[]).is_err(), "bad data accepted");
                Ok(())
            });
        }
    });
    // awkward decimal ranges: the end points must not fall out of the range by rounding
    run.section("chebyshev-ranges", 61, |ctx, ia| {
        let xa = (ia as f64 - 30.0) / 10.0;
        for ib in 1..40 {
            let xb = ((ia + ib) as f64 - 30.0) / 10.0;
            ctx.case(format!("[{},{}]", xa, xb), |t| {
                for nn in [1, 2, 5] {
                    let mut it = InterpChebyshev::new(nn, xa, xb)?;
                    let f = |x: f64| 1.0 + 2.0 * x;
                    let x: Vec<f64> = (0..=nn).map(|i| if i == nn { xb } else { xa + (xb - xa) * i as f64 / nn as f64 }).collect();
                    let y: Vec<f64> = x.iter().map(|&x| f(x)).collect();
                    t.op();
                    it.set_gen_data(&x, &y)?;
                    for x in [xa, xb, (xa + xb) / 2.0] {
                        t.ops(2);
                        ensure!(near(it.eval(x)?, f(x), 1e-11) && near(it.eval_using_trig(x)?, f(x), 1e-11), "value at {}: {} {}", x, it.eval(x)?, it.eval_using_trig(x)?);
                    }
                }
                Ok(())
            });
        }
    });
    run.section("chebyshev-refusals", 1, |ctx, _| {
        for (a, b, ok) in [(0.0, 0.0, false), (1.0, 0.0, false), (0.0, 1e-6, false), (0.0, 1e-4, true)] {
            ctx.case(format!("[{},{}]", a, b), |t| {
                t.op();
                ensure!(InterpChebyshev::new(3, a, b).is_ok() == ok, "accepted = {}", !ok);
                Ok(())
            });
        }
        // data of each length for each largest degree
        for nn_max in 0..6 {
            for np in 0..12 {
                for way in 0..5 {
                    ctx.case(format!("largest degree {nn_max}/{np} values/way {way}"), |t| {
                        t.op();
                        let mut it = InterpChebyshev::new(nn_max, -1.0, 2.0)?;
                        let uu: Vec<f64> = (0..np).map(|i| 1.0 + i as f64).collect();
                        // stations from one end to the other
                        let xx: Vec<f64> = (0..np).map(|i| if i + 1 == np { 2.0 } else { -1.0 + 3.0 * i as f64 / (np - 1) as f64 }).collect();
                        let fits = np >= 1 && np <= nn_max + 1;
                        let (res, ok) = match way {
                            0 => (guarded(|| it.set_data(&uu))?, fits),
                            1 => (guarded(|| it.adapt_data(1e-8, &uu))?, fits),
                            2 => (guarded(|| it.set_gen_data(&xx, &uu))?, fits && np >= 2),
                            3 => {
                                let other: Vec<f64> = xx.iter().map(|x| x + 1e-3).collect();
                                (guarded(|| it.set_gen_data(&other, &uu))?, false)
                            }
                            _ => {
                                let mut more = uu.clone();
                                more.push(0.0);
                                (guarded(|| it.set_gen_data(&xx, &more))?, false)
                            }
                        };
                        // a slack of two degrees is allowed, and the adaptive way may find the degree too small
                        let either = (way < 3 && (np == nn_max + 2 || np == nn_max + 3) && np >= 2) || (way == 1 && ok);
                        ensure!(either || res.is_ok() == ok, "{res:?}");
                        let value = guarded(|| it.eval(0.5))?;
                        ensure!(value.is_ok() == res.is_ok() || res.is_err() && way == 1, "value after {res:?}: {value:?}");
                        Ok(())
                    });
                }
            }
        }
    });
    // histories: after every successful change the interpolant is the one of the latest function,
    // after a failed change it is the previous one or refuses to answer
    const NOPS: usize = 10;
    let depth = run.pick(3, 4);
    run.section("chebyshev-histories", NOPS * NOPS, |ctx, w| {
        for i in 0..pow(NOPS, depth - 2) {
            let mut ops = vec![w % NOPS, w / NOPS];
            ops.extend(digits(i, NOPS, depth - 2));
            ctx.case(format!("{:?}", ops), |t| {
                let r = (-0.5, 2.0);
                let mut it = InterpChebyshev::new(8, r.0, r.1)?;
                let mut cur: Option<(usize, usize)> = None; // (degree, function)
                let fun = |id: usize, x: f64| (0..=id).map(|k| (k as f64 + 1.5) * cheb(k, to_z(x, r)).0).sum::<f64>();
                for (step, &op) in ops.iter().enumerate() {
                    t.op();
                    let mut count = 0;
                    let res: (Result<(), StrError>, Option<usize>) = match op {
                        0 => (it.set_function(0, &mut 0, |x, _: &mut NoArgs| Ok(fun(0, x))), Some(0)),
                        1 => (it.set_function(3, &mut 0, |x, _: &mut NoArgs| Ok(fun(3, x))), Some(3)),
                        2 => (it.set_function(6, &mut 0, |x, _: &mut NoArgs| Ok(fun(2, x))), Some(2)),
                        3 => {
                            let d: Vec<f64> = (0..6).map(|j| fun(5, (r.1 + r.0 - (r.1 - r.0) * f64::cos(PI * j as f64 / 5.0)) / 2.0)).collect();
                            (it.set_data(&d), Some(5))
                        }
                        4 => (it.set_data(&[1.5]), Some(0)),
                        5 => (it.adapt_function(1e-8, &mut 0, |x, _: &mut NoArgs| Ok(fun(4, x))), Some(4)),
                        6 => (it.adapt_function(1e-8, &mut 0, |x, _: &mut NoArgs| Ok(f64::exp(5.0 * x) + x.abs())), None),
                        7 => (
                            it.set_function(4, &mut 0, |x, _: &mut NoArgs| {
                                count += 1;
                                if count == 3 {
                                    Err("stop")
                                } else {
                                    Ok(fun(4, x))
                                }
                            }),
                            None,
                        ),
                        8 => (it.set_function(99, &mut 0, |x, _: &mut NoArgs| Ok(fun(1, x))), None),
                        _ => (
                            it.adapt_function(1e-8, &mut 0, |x, _: &mut NoArgs| {
                                count += 1;
                                if count == 4 + step {
                                    Err("stop")
                                } else {
                                    Ok(fun(6, x))
                                }
                            }),
                            None,
                        ),
                    };
                    match res {
                        (Ok(()), Some(id)) => cur = Some((it.get_degree(), id)),
                        (Err(e), Some(_)) => fail!("operation {} refused: {}", op, e),
                        (Ok(()), None) => fail!("operation {} must fail", op),
                        (Err(_), None) => {
                            if !it.is_ready() {
                                cur = None;
                            }
                        }
                    }
                    for s in 0..=6 {
                        let x = r.0 + (r.1 - r.0) * s as f64 / 6.0;
                        match (it.eval(x), cur) {
                            (Ok(v), Some((_, id))) => ensure!(near(v, fun(id, x), 1e-7), "after {:?}: value at {} is {} instead of {}", &ops[..=step], x, v, fun(id, x)),
                            (Err(_), None) => (),
                            (Ok(v), None) => fail!("after {:?}: a value ({}) without data", &ops[..=step], v),
                            (Err(e), Some(_)) => fail!("after {:?}: {}", &ops[..=step], e),
                        }
                    }
                    if let Some((deg, id)) = cur {
                        let (x, y) = it.get_xy_data()?;
                        ensure!(x.dim() == deg + 1 && y.dim() == deg + 1, "data size");
                        for j in 0..=deg {
                            ensure!(near(y[j], fun(id, x[j]), 1e-7), "after {:?}: data at {} is {} instead of {}", &ops[..=step], x[j], y[j], fun(id, x[j]));
                        }
                    }
                    t.state(&(op, cur));
                }
                Ok(())
            });
        }
    });
}

pub fn explore(run: &mut Run) {
    run.level(
        "model_checking",
        "every grid type x normalisation x degree x Chebyshev polynomial and monomial of no higher degree x evaluation points (nodes, neighbours of nodes, mid-points, ends); every history of cached-matrix and data-setting calls up to the bound, compared with a fresh object or with the analytical function",
    );
    run.assume("derivatives evaluated at a distance d of a node carry a rounding error proportional to eps/d and eps/d^2 (barycentric formula)");
    lagrange(run);
    chebyshev(run);
}
