//! L06: scalar and small numerical algorithms

use mc::*;
use num_complex::Complex64;
use russell_lab::*;

fn horner(c: &[f64], x: f64) -> f64 {
    c.iter().rev().fold(0.0, |s, a| s * x + a)
}

fn deriv(c: &[f64]) -> Vec<f64> {
    (1..c.len()).map(|k| k as f64 * c[k]).collect()
}

/// coefficients of the product of (x - r)
fn from_roots(roots: &[f64]) -> Vec<f64> {
    let mut c = vec![1.0];
    for r in roots {
        let mut d = vec![0.0; c.len() + 1];
        for (k, a) in c.iter().enumerate() {
            d[k + 1] += a;
            d[k] -= a * r;
        }
        c = d;
    }
    c
}

fn root_brent(run: &mut Run) {
    let scales = [1.0, -1.0, 1e-3, 1e3];
    let n = run.pick(7, 11);
    let lo = -((n / 2) as f64);
    run.section("root-brent-polynomials", pow(n, 4), |ctx, w| {
        let c0: Vec<f64> = digits(w, n, 4).iter().map(|d| lo + *d as f64).collect();
        for scale in scales {
            let c: Vec<f64> = c0.iter().map(|v| v * scale).collect();
            for ia in 0..8 {
                for ib in 0..8 {
                    let (a, b) = (-3.25 + ia as f64, -3.0 + ib as f64);
                    ctx.case(format!("coefs={:?} [{},{}]", c, a, b), |t| {
                        t.op();
                        let mut s = RootFinder::new();
                        let f = |x: f64, _: &mut NoArgs| Ok(horner(&c, x));
                        let res = s.brent(a, b, &mut 0, f);
                        let (fa, fb) = (horner(&c, a), horner(&c, b));
                        if fa * fb >= 0.0 {
                            ensure!(res.is_err(), "accepted without a sign change");
                            t.trivial();
                            return Ok(());
                        }
                        let x = res?;
                        ensure!(x >= a.min(b) && x <= a.max(b), "root {} outside of the bracket", x);
                        let d = 4.0 * (2.0 * f64::EPSILON * x.abs() + 0.5e-13);
                        let (fl, fr) = (horner(&c, x - d), horner(&c, x + d));
                        // (multiple roots vanish by rounding in a neighbourhood)
                        let noise = 4.0 * f64::EPSILON * c.iter().enumerate().map(|(k, a)| a.abs() * x.abs().powi(k as i32)).sum::<f64>();
                        ensure!(fl * fr <= 0.0 || horner(&c, x).abs() <= noise, "no sign change around {}: f = {}", x, horner(&c, x));
                        t.state_f64(&[x]);
                        Ok(())
                    });
                }
            }
        }
    });
    let funs: Vec<(&str, fn(f64) -> f64, f64)> = vec![
        ("exp-2", |x| f64::exp(x) - 2.0, std::f64::consts::LN_2),
        ("atan", |x| f64::atan(x - 0.25), 0.25),
        ("tanh50", |x| f64::tanh(50.0 * (x - 0.3)), 0.3),
        ("cosx-x", |x| f64::cos(x) - x, 0.739085133215160641655312),
        ("step", |x| if x < 0.7 { -1.0 } else { 2.0 }, 0.7),
        ("cbrt", |x| f64::cbrt(x - 0.6), 0.6),
        ("ln", |x| f64::ln(x + 2.0), -1.0),
        ("sqrt-sign", |x: f64| f64::copysign(f64::sqrt((x - 0.4).abs()), x - 0.4), 0.4),
        ("tiny", |x| 1e-12 * (x - 0.5), 0.5),
        ("huge", |x| 1e200 * (x - 0.5), 0.5),
    ];
    run.section("root-brent-functions", funs.len(), |ctx, w| {
        let (name, f, root) = funs[w];
        for ia in 0..12 {
            for ib in 0..12 {
                for tol in [1e-13, 1e-8, 1e-3] {
                    let (a, b) = ([-1.9, -1.5, -1.0, -0.5, 0.0, 0.1, 0.2, 0.35, 0.5, 0.65, 0.9, 1.7][ia], [-1.8, -1.2, -0.9, -0.1, 0.15, 0.28, 0.45, 0.55, 0.8, 1.1, 2.0, 3.0][ib]);
                    ctx.case(format!("{} [{},{}] tol={}", name, a, b, tol), |t| {
                        t.op();
                        let mut s = RootFinder::new();
                        s.brent_tolerance = tol;
                        s.set_enable_stats(true);
                        let mut calls = 0;
                        let res = s.brent(a, b, &mut 0, |x, _: &mut NoArgs| {
                            calls += 1;
                            Ok(f(x))
                        });
                        if (a - root) * (b - root) >= 0.0 {
                            ensure!(res.is_err(), "accepted without a sign change");
                            t.trivial();
                            return Ok(());
                        }
                        let x = res?;
                        ensure!(near(x, root, 2.0 * tol + 1e-14), "root {} instead of {}", x, root);
                        ensure!(s.get_stats()?.get_n_function() == calls, "calls {} counted {}", calls, s.get_stats()?.get_n_function());
                        Ok(())
                    });
                }
            }
        }
        ctx.case(format!("{} degenerate bracket", name), |t| {
            t.op();
            ensure!(RootFinder::new().brent(0.5, 0.5, &mut 0, |x, _: &mut NoArgs| Ok(f(x))).is_err(), "empty bracket accepted");
            Ok(())
        });
    });
}

fn root_chebyshev(run: &mut Run) {
    // polynomials with separated roots on a lattice, some outside of the range
    let lattice: Vec<f64> = (-6..=6).map(|i| i as f64 / 4.0).collect();
    let nl = lattice.len();
    let kmax = run.pick(5, 6);
    run.section("root-chebyshev", kmax * 3, |ctx, w| {
        let k = w / 3 + 1;
        let (xa, xb) = [(-1.0, 1.0), (-1.6, 1.6), (0.1, 1.3)][w % 3];
        for i in 0..pow(2, nl) {
            let roots: Vec<f64> = (0..nl).filter(|b| i >> b & 1 == 1).map(|b| lattice[b]).collect();
            if roots.len() != k {
                continue;
            }
            ctx.case(format!("roots={:?} [{},{}]", roots, xa, xb), |t| {
                t.ops(3);
                let c = from_roots(&roots);
                let mut it = InterpChebyshev::new(k, xa, xb)?;
                it.set_function(k, &mut 0, |x, _: &mut NoArgs| Ok(horner(&c, x)))?;
                let s = RootFinder::new();
                let mut got = s.chebyshev(&it)?;
                let expect: Vec<f64> = roots.iter().copied().filter(|r| *r >= xa && *r <= xb).collect();
                ensure!(got.len() == expect.len() && got.iter().zip(&expect).all(|(a, b)| near(*a, *b, 1e-7)), "roots {:?} instead of {:?}", got, expect);
                if got.len() > 0 {
                    for (i, g) in got.iter_mut().enumerate() {
                        *g = (*g + if i % 2 == 0 { 1e-4 } else { -1e-4 }).max(xa).min(xb);
                    }
                    s.refine(&mut got, xa, xb, &mut 0, |x, _: &mut NoArgs| Ok(horner(&c, x)))?;
                    ensure!(got.iter().zip(&expect).all(|(a, b)| near(*a, *b, 1e-10)), "refined roots {:?} instead of {:?}", got, expect);
                } else {
                    ensure!(s.refine(&mut got, xa, xb, &mut 0, |x, _: &mut NoArgs| Ok(horner(&c, x))).is_err(), "no roots to refine accepted");
                }
                Ok(())
            });
        }
    });
    // many roots: T_n(z) = c has n roots of which all are known
    run.section("root-chebyshev-many", 40, |ctx, w| {
        let n = w + 2;
        for (xa, xb) in [(-1.0, 1.0), (0.0, 3.0), (-2.5, -0.5)] {
            for c in [0.0, 0.5, -0.75, 1.5] {
                ctx.case(format!("degree {} = {} [{},{}]", n, c, xa, xb), |t| {
                    t.ops(3);
                    let z = |x: f64| (2.0 * x - xa - xb) / (xb - xa);
                    // (three-term recurrence)
                    let f = |x: f64| {
                        let (mut p, mut q) = (1.0, z(x));
                        for _ in 1..n {
                            (p, q) = (q, 2.0 * z(x) * q - p);
                        }
                        q - c
                    };
                    let mut expect: Vec<f64> = Vec::new();
                    if c < 1.0 {
                        // (n y = +-acos(c) + 2 pi k, y in (0, pi))
                        for k in 0..=n {
                            for s in [1.0, -1.0] {
                                let y = (s * f64::acos(c) + 2.0 * std::f64::consts::PI * k as f64) / n as f64;
                                if y > 0.0 && y < std::f64::consts::PI {
                                    expect.push((xa + xb + (xb - xa) * y.cos()) / 2.0);
                                }
                            }
                        }
                        expect.sort_by(f64::total_cmp);
                        ensure!(expect.len() == n, "reference");
                    }
                    let mut it = InterpChebyshev::new(n, xa, xb)?;
                    it.set_function(n, &mut 0, |x, _: &mut NoArgs| Ok(f(x)))?;
                    let s = RootFinder::new();
                    let mut got = s.chebyshev(&it)?;
                    ensure!(got.len() == expect.len() && got.iter().zip(&expect).all(|(a, b)| near(*a, *b, 1e-8)), "roots {:?} instead of {:?}", got, expect);
                    t.state(&(n, got.len()));
                    if c == 0.0 {
                        s.refine(&mut got, xa, xb, &mut 0, |x, _: &mut NoArgs| Ok(f(x)))?;
                        ensure!(got.iter().zip(&expect).all(|(a, b)| near(*a, *b, 1e-9)), "refined roots {:?} instead of {:?}", got, expect);
                    }
                    Ok(())
                });
            }
        }
    });
    // refinement from every point of the lattice, near a root or not
    let funs: Vec<(&str, fn(f64) -> f64)> = vec![
        ("x²+1", |x| x * x + 1.0),
        ("1-cosh(x)-1/4", |x| 0.75 - f64::cosh(x)),
        ("2", |_| 2.0),
        ("-1e-3", |_| -1e-3),
        ("x⁴+x²+1/8", |x| x * x * (x * x + 1.0) + 0.125),
    ];
    run.section("root-refine", lattice.len() * 2, |ctx, w| {
        let start = lattice[w / 2];
        let (xa, xb) = [(-1.6, 1.6), (-1.5, 1.5)][w % 2];
        for (name, f) in &funs {
            for other in [None, Some(0.3)] {
                ctx.case(format!("{} from {} [{},{}] {:?}", name, start, xa, xb, other), |t| {
                    t.op();
                    let mut guess = vec![start];
                    guess.extend(other);
                    let res = RootFinder::new().refine(&mut guess, xa, xb, &mut 0, |x, _: &mut NoArgs| Ok(f(x)));
                    ensure!(res.is_err(), "root {:?} of a function that has none", guess);
                    Ok(())
                });
            }
        }
        for i in 1..pow(2, nl) {
            let roots: Vec<f64> = (0..nl).filter(|b| i >> b & 1 == 1).map(|b| lattice[b]).collect();
            if roots.len() > 3 {
                continue;
            }
            let c = from_roots(&roots);
            for sc in [1.0, -100.0] {
                ctx.case(format!("roots={:?} x {} from {} [{},{}]", roots, sc, start, xa, xb), |t| {
                    t.op();
                    let mut guess = [start];
                    if RootFinder::new().refine(&mut guess, xa, xb, &mut 0, |x, _: &mut NoArgs| Ok(sc * horner(&c, x))).is_ok() {
                        ensure!(roots.iter().any(|r| near(*r, guess[0], 1e-9)), "{} is not a root: f = {:e}", guess[0], sc * horner(&c, guess[0]));
                    } else {
                        ensure!(!roots.iter().any(|r| near(*r, start, 1e-9)), "failed at a root");
                    }
                    Ok(())
                });
            }
        }
    });
    run.section("root-chebyshev-special", 1, |ctx, _| {
        for k in 1..=4 {
            for (xa, xb) in [(-1.0, 1.0), (0.0, 4.0), (-7.0, -3.0)] {
                for (side, tol) in [(1.0, 1e-3), (-1.0, 1e-3), (1.0, 1e-9), (-1.0, 1e-9)] {
                    ctx.case(format!("root just outside: degree {} [{},{}] side {} within {}", k, xa, xb, side, tol), |t| {
                        t.op();
                        // (the other roots are far outside)
                        let z = side * (1.0 + 0.5 * tol);
                        let r = (xa + xb + (xb - xa) * z) / 2.0;
                        let f = |x: f64| (x - r) * f64::powi((x - xa) / (xb - xa) + 4.0, k as i32 - 1);
                        let mut it = InterpChebyshev::new(k, xa, xb)?;
                        it.set_function(k, &mut 0, |x, _: &mut NoArgs| Ok(f(x)))?;
                        let mut s = RootFinder::new();
                        s.tol_abs_boundary = tol;
                        let got = s.chebyshev(&it)?;
                        let bound = if side > 0.0 { xb } else { xa };
                        ensure!(got.len() == 1 && got[0] == bound, "{:?} instead of the bound {}", got, bound);
                        s.tol_abs_boundary = 0.1 * tol;
                        let got = s.chebyshev(&it)?;
                        ensure!(got.is_empty(), "{:?} outside by more than the tolerance", got);
                        Ok(())
                    });
                }
            }
        }
        ctx.case("not ready", |t| {
            t.op();
            ensure!(RootFinder::new().chebyshev(&InterpChebyshev::new(2, 0.0, 1.0)?).is_err(), "accepted");
            Ok(())
        });
        ctx.case("constant", |t| {
            t.op();
            let mut it = InterpChebyshev::new(2, 0.0, 1.0)?;
            it.set_data(&[3.0])?;
            ensure!(RootFinder::new().chebyshev(&it)?.is_empty(), "roots of a constant");
            Ok(())
        });
        ctx.case("vanishing trailing coefficient", |t| {
            t.op();
            let mut it = InterpChebyshev::new(3, -1.0, 1.0)?;
            it.set_function(3, &mut 0, |x, _: &mut NoArgs| Ok(x))?;
            ensure!(RootFinder::new().chebyshev(&it).is_err(), "accepted");
            Ok(())
        });
    });
}

fn minimise(run: &mut Run) {
    let funs: Vec<(&str, fn(f64, f64) -> f64)> = vec![
        ("quadratic", |x, c| (x - c) * (x - c) + 1.0),
        ("steep", |x, c| 1e3 * (x - c) * (x - c) - 5.0),
        ("abs", |x: f64, c| (x - c).abs()),
        ("quartic", |x: f64, c| (x - c).powi(4)),
        ("skew", |x, c| f64::exp(x - c) - (x - c)),
        ("cosh", |x, c| f64::cosh(x - c)),
        ("asym", |x, c| if x < c { 10.0 * (c - x) } else { 0.1 * (x - c) }),
    ];
    run.section("minimise", funs.len() * 13, |ctx, w| {
        let (name, f) = funs[w % funs.len()];
        let c = -3.0 + 0.5 * (w / funs.len()) as f64;
        for ia in 0..9 {
            for ib in 0..9 {
                let (a, b) = (-4.0 + ia as f64, -3.7 + ib as f64);
                for tol in [1e-10, 1e-4] {
                    ctx.case(format!("brent {} c={} [{},{}] tol={}", name, c, a, b, tol), |t| {
                        t.op();
                        let mut s = MinSolver::new();
                        s.tolerance = tol;
                        s.n_iteration_max = 500; // (flat minima converge slowly)
                        let x = s.brent(a, b, &mut 0, |x, _: &mut NoArgs| Ok(f(x, c)))?;
                        let (l, r) = (a.min(b), a.max(b));
                        ensure!(x >= l && x <= r, "minimum {} outside of the bracket", x);
                        let best = c.max(l).min(r);
                        let d = 4.0 * tol + 1e-7 * (1.0 + x.abs());
                        if name == "quartic" && best == c {
                            ensure!(f(x, c) <= f(best, c) + 1e-10 + 10.0 * d * d * d, "f({}) = {} above the minimum {}", x, f(x, c), f(best, c));
                        } else {
                            ensure!(near(x, best, d), "minimum at {} instead of {}", x, best);
                        }
                        Ok(())
                    });
                }
            }
        }
        for ig in 0..17 {
            for step in [1e-2, 1.0, -0.3] {
                for factor in [1.5, 2.0] {
                    let g = -4.0 + 0.5 * ig as f64;
                    ctx.case(format!("bracket {} c={} guess={} step={} factor={}", name, c, g, step, factor), |t| {
                        t.op();
                        let mut s = MinBracketing::new();
                        s.initial_step = step;
                        s.expansion_factor = factor;
                        s.set_enable_stats(true);
                        let mut calls = 0;
                        let k = s.basic(g, &mut 0, |x, _: &mut NoArgs| {
                            calls += 1;
                            Ok(f(x, c))
                        })?;
                        ensure!(k.a < k.xo && k.xo < k.b, "not ordered {:?}", k);
                        ensure!(k.fa == f(k.a, c) && k.fb == f(k.b, c) && k.fxo == f(k.xo, c), "values do not belong to the points {:?}", k);
                        ensure!(k.fxo <= k.fa && k.fxo <= k.fb && (k.fxo < k.fa || k.fxo < k.fb), "not a bracket {:?}", k);
                        ensure!(k.a <= c && c <= k.b, "minimum {} outside of the bracket {:?}", c, k);
                        ensure!(s.get_stats()?.get_n_function() == calls, "calls");
                        Ok(())
                    });
                }
            }
        }
    });
    run.section("minimise-refusals", 1, |ctx, _| {
        ctx.case("monotonic function has no bracket", |t| {
            t.op();
            ensure!(MinBracketing::new().basic(0.0, &mut 0, |x, _: &mut NoArgs| Ok(-x)).is_err(), "accepted");
            let mut s = MinBracketing::new();
            s.n_iteration_max = 1;
            ensure!(s.basic(0.0, &mut 0, |x, _: &mut NoArgs| Ok(x * x)).is_err(), "n_iteration_max = 1 accepted");
            Ok(())
        });
        for (a, b, n, tol, ok) in [(0.0, 0.0, 100, 1e-10, false), (0.0, 1.0, 1, 1e-10, false), (0.0, 1.0, 100, 1e-16, false), (0.0, 1.0, 2, 1e-10, false), (0.0, 1.0, 100, 1e-10, true), (1.0, -1.0, 100, 1e-10, true)] {
            ctx.case(format!("brent [{},{}] n={} tol={}", a, b, n, tol), |t| {
                t.op();
                let mut s = MinSolver::new();
                s.n_iteration_max = n;
                s.tolerance = tol;
                let r = s.brent(a, b, &mut 0, |x, _: &mut NoArgs| Ok((x - 0.3) * (x - 0.3)));
                ensure!(r.is_ok() == ok, "result {:?}", r);
                Ok(())
            });
        }
    });
}

fn quadrature(run: &mut Run) {
    let gauss = [6, 8, 10, 12, 14];
    let bounds: Vec<(f64, f64)> = {
        let p = [-3.0, -1.0, -0.5, 0.0, 0.25, 1.0, 1.0625, 2.5, 10.0];
        p.iter().flat_map(|a| p.iter().map(move |b| (*a, *b))).filter(|(a, b)| a != b).collect()
    };
    run.section("quadrature-polynomials", gauss.len() * bounds.len(), |ctx, w| {
        let ng = gauss[w % gauss.len()];
        let (a, b) = bounds[w / gauss.len()];
        for deg in 0..20usize {
            for tol in [1e-10, 1e-13] {
                ctx.case(format!("x^{} [{},{}] n={} tol={}", deg, a, b, ng, tol), |t| {
                    t.op();
                    let mut q = Quadrature::new();
                    q.n_gauss = ng;
                    q.tolerance = tol;
                    q.set_enable_stats(true);
                    let mut calls = 0;
                    let v = q.integrate(a, b, &mut 0, |x, _: &mut NoArgs| {
                        calls += 1;
                        Ok(x.powi(deg as i32) + 0.5)
                    })?;
                    let k = deg as i32 + 1;
                    let exact = (b.powi(k) - a.powi(k)) / k as f64 + 0.5 * (b - a);
                    let area = (b.abs().powi(k) + a.abs().powi(k)) / k as f64 + (b - a).abs();
                    ensure!((v - exact).abs() <= 4.0 * tol * area + 1e-13 * area, "integral {} instead of {}", v, exact);
                    ensure!(q.get_stats()?.get_n_function() == calls, "calls");
                    if deg < 2 * ng {
                        ensure!(calls <= 5 * ng, "{} calls for a polynomial within the exactness degree", calls);
                    }
                    Ok(())
                });
            }
        }
    });
    let funs: Vec<(&str, fn(f64) -> f64, fn(f64) -> f64)> = vec![
        ("sin", f64::sin, |x| -f64::cos(x)),
        ("exp", f64::exp, f64::exp),
        ("1/(1+x2)", |x| 1.0 / (1.0 + x * x), f64::atan),
        ("sqrt", |x: f64| x.abs().sqrt(), |x: f64| f64::copysign(x.abs().powf(1.5) / 1.5, x)),
        ("abs", |x: f64| (x - 0.3).abs(), |x: f64| 0.5 * (x - 0.3) * (x - 0.3).abs()),
        ("peak", |x| 1e-3 / (1e-6 + (x - 0.2) * (x - 0.2)), |x| f64::atan((x - 0.2) / 1e-3)),
        ("step", |x| if x < 0.45 { 0.0 } else { 1.0 }, |x| if x < 0.45 { 0.0 } else { x - 0.45 }),
        ("oscillating", |x| f64::cos(40.0 * x), |x| f64::sin(40.0 * x) / 40.0),
    ];
    run.section("quadrature-functions", funs.len() * gauss.len(), |ctx, w| {
        let (name, f, ff) = funs[w % funs.len()];
        let ng = gauss[w / funs.len()];
        for (a, b) in &bounds {
            for tol in [1e-10, 1e-6] {
                ctx.case(format!("{} [{},{}] n={} tol={}", name, a, b, ng, tol), |t| {
                    t.op();
                    let mut q = Quadrature::new();
                    q.n_gauss = ng;
                    q.tolerance = tol;
                    q.n_iteration_max = 3000;
                    match q.integrate(*a, *b, &mut 0, |x, _: &mut NoArgs| Ok(f(x))) {
                        Ok(v) => {
                            let exact = ff(*b) - ff(*a);
                            let area = ff(*a).abs() + ff(*b).abs() + (b - a).abs();
                            // a narrow feature may be missed by the first panels: only smooth functions are required to be within tolerance then
                            let slack = if name == "peak" || name == "step" || name == "abs" { f64::INFINITY } else { 100.0 };
                            ensure!((v - exact).abs() <= slack * tol * area, "integral {} instead of {}", v, exact);
                            // the value must not depend on the direction
                            let v2 = q.integrate(*b, *a, &mut 0, |x, _: &mut NoArgs| Ok(f(x)));
                            if let Ok(v2) = v2 {
                                ensure!(slack.is_infinite() || near(v2, -v, 200.0 * tol * area), "reversed integral {} vs {}", v2, v);
                            }
                        }
                        Err(e) => {
                            let smooth = ["sin", "exp", "1/(1+x2)"].contains(&name);
                            ensure!(!smooth, "refused: {}", e);
                        }
                    }
                    Ok(())
                });
            }
        }
    });
    run.section("quadrature-close-bounds", 30, |ctx, w| {
        for base in [1.0, -1.0, 0.1, 7.0, 1e3, 1e6, 1e-3] {
            for m in [1.0, 3.0, 7.0] {
                let (a, b) = (base, base + m * base.abs() * f64::powi(0.3, w as i32));
                ctx.case(format!("[{},{}]", a, b), |t| {
                    t.op();
                    let r = Quadrature::new().integrate(a, b, &mut 0, |_, _: &mut NoArgs| Ok(2.0));
                    if let Ok(v) = r {
                        ensure!(near(v, 2.0 * (b - a), 1e-9 * (b - a)), "integral {} instead of {}", v, 2.0 * (b - a));
                    } else if (b - a) > 1e-10 * base.abs() && (b - a) > 1e-14 {
                        fail!("refused: {:?}", r);
                    }
                    Ok(())
                });
            }
        }
    });
    run.section("quadrature-refusals", 1, |ctx, _| {
        for ng in 0..20 {
            for (n, tol) in [(300, 1e-10), (1, 1e-10), (300, 1e-16)] {
                ctx.case(format!("n_gauss={} iterations={} tol={}", ng, n, tol), |t| {
                    t.op();
                    let mut q = Quadrature::new();
                    q.n_gauss = ng;
                    q.n_iteration_max = n;
                    q.tolerance = tol;
                    let ok = gauss.contains(&ng) && n > 1 && tol > 1e-15;
                    ensure!(q.integrate(0.0, 1.0, &mut 0, |x, _: &mut NoArgs| Ok(x)).is_ok() == ok, "accepted = {}", !ok);
                    ensure!(q.integrate(1.0, 1.0, &mut 0, |x, _: &mut NoArgs| Ok(x)).is_err(), "empty range accepted");
                    Ok(())
                });
            }
        }
    });
}

fn newton(run: &mut Run) {
    // all linear 2x2 systems with small integer entries
    run.section("newton-linear", pow(5, 4), |ctx, w| {
        let m: Vec<f64> = digits(w, 5, 4).iter().map(|d| *d as f64 - 2.0).collect();
        let det = m[0] * m[3] - m[1] * m[2];
        for (b0, b1) in [(1.0, 2.0), (0.0, -1.0), (0.0, 0.0)] {
            for ls in [false, true] {
                ctx.case(format!("{:?} b=({},{}) line-search={}", m, b0, b1, ls), |t| {
                    t.op();
                    let mut s = NewtonSolver::new(2)?;
                    s.set_use_line_search(ls).set_enable_stats(true);
                    let mut x = Vector::from(&[0.5, -0.25]);
                    let (mut nf, mut nj) = (0, 0);
                    let res = s.solve(
                        &mut x,
                        &mut 0,
                        |r, x, _: &mut NoArgs| {
                            nf += 1;
                            r[0] = m[0] * x[0] + m[1] * x[1] - b0;
                            r[1] = m[2] * x[0] + m[3] * x[1] - b1;
                            Ok(())
                        },
                        |jj, _, _: &mut NoArgs| {
                            nj += 1;
                            for i in 0..4 {
                                jj.set(i / 2, i % 2, m[i]);
                            }
                            Ok(())
                        },
                    );
                    let (r0, r1) = (m[0] * x[0] + m[1] * x[1] - b0, m[2] * x[0] + m[3] * x[1] - b1);
                    if res.is_ok() {
                        ensure!(r0.abs() < 1e-10 && r1.abs() < 1e-10, "residual ({},{})", r0, r1);
                    }
                    if det != 0.0 {
                        res?;
                        ensure!(nj <= 2, "{} Jacobians for a linear system", nj);
                        let st = s.get_stats()?;
                        ensure!(st.get_n_function() == nf && st.get_n_jacobian() == nj, "counted {} {} instead of {} {}", st.get_n_function(), st.get_n_jacobian(), nf, nj);
                    }
                    Ok(())
                });
            }
        }
    });
    // chains of every dimension with a known and unique solution
    let mut dims: Vec<usize> = (1..=12).collect();
    dims.extend([16, 17, 21, 33, 65]);
    run.section("newton-dimensions", dims.len(), |ctx, w| {
        let n = dims[w];
        for start in 0..4 {
            for ls in [false, true] {
                for tol in [1e-10, 1e-6] {
                    ctx.case(format!("n={n} start={start} line-search={ls} tol={tol}"), |t| {
                        let at = |x: &[f64], i: usize| x[i] * x[i] * x[i] / 8.0 + 2.0 * x[i] + if i + 1 < n { 0.5 * x[i + 1] } else { 0.0 } - if i > 0 { 0.25 * x[i - 1] } else { 0.0 };
                        let sol: Vec<f64> = (0..n).map(|i| (i % 5) as f64 / 2.0 - 0.75).collect();
                        let rhs: Vec<f64> = (0..n).map(|i| at(&sol, i)).collect();
                        let mut s = NewtonSolver::new(n)?;
                        s.set_use_line_search(ls).set_tolerance(tol).set_enable_stats(true);
                        for round in 0..2 {
                            let mut x = Vector::initialized(n, |i| [0.0, 3.0, -1.0, (i % 3) as f64][(start + round) % 4]);
                            let (mut nf, mut nj) = (0, 0);
                            s.solve(
                                &mut x,
                                &mut 0,
                                |r, x, _: &mut NoArgs| {
                                    nf += 1;
                                    for i in 0..n {
                                        r[i] = at(x.as_data(), i) - rhs[i];
                                    }
                                    Ok(())
                                },
                                |jj, x, _: &mut NoArgs| {
                                    nj += 1;
                                    jj.fill(0.0);
                                    for i in 0..n {
                                        jj.set(i, i, 0.375 * x[i] * x[i] + 2.0);
                                        if i + 1 < n {
                                            jj.set(i, i + 1, 0.5);
                                        }
                                        if i > 0 {
                                            jj.set(i, i - 1, -0.25);
                                        }
                                    }
                                    Ok(())
                                },
                            )?;
                            t.ops(nf + nj);
                            t.state_f64(x.as_data());
                            for i in 0..n {
                                ensure!(near(x[i], sol[i], 2.0 * tol), "x[{i}] is {} instead of {}", x[i], sol[i]);
                            }
                            ensure!(nj <= 12, "{nj} Jacobians");
                            let st = s.get_stats()?;
                            ensure!(st.get_n_function() == nf && st.get_n_jacobian() == nj, "counted {} {} instead of {} {}", st.get_n_function(), st.get_n_jacobian(), nf, nj);
                        }
                        Ok(())
                    });
                }
            }
        }
    });
    // nonlinear systems, some without a solution
    let names = ["circle-line", "cubic", "exp", "no-root", "flat", "nan", "nan-second", "inf"];
    run.section("newton-nonlinear", names.len(), |ctx, w| {
        for ix in 0..9 {
            for iy in 0..9 {
                for ls in [false, true] {
                    for tol in [1e-10, 1e-4] {
                        for maxit in [1, 3, 20] {
                            ctx.case(format!("{} ({},{}) ls={} tol={} max={}", names[w], ix, iy, ls, tol, maxit), |t| {
                                t.op();
                                let mut s = NewtonSolver::new(2)?;
                                s.set_use_line_search(ls).set_tolerance(tol).set_max_iterations(maxit).set_enable_stats(true);
                                let f = |x: &Vector| -> [f64; 2] {
                                    let (a, b) = (x[0], x[1]);
                                    match w {
                                        0 => [a * a + b * b - 4.0, a - b],
                                        1 => [a * a * a - b, b * b * b - a],
                                        2 => [f64::exp(a) - 1.0 - b, b - a * 0.5],
                                        3 => [a * a + 1.0, b],
                                        4 => [a * a, b * b * b],
                                        5 => [f64::NAN, f64::NAN],
                                        6 => [a, f64::NAN],
                                        _ => [1.0 / (a - a), b],
                                    }
                                };
                                let jac = |x: &Vector| -> [f64; 4] {
                                    let (a, b) = (x[0], x[1]);
                                    match w {
                                        0 => [2.0 * a, 2.0 * b, 1.0, -1.0],
                                        1 => [3.0 * a * a, -1.0, -1.0, 3.0 * b * b],
                                        2 => [f64::exp(a), -1.0, -0.5, 1.0],
                                        3 => [2.0 * a, 0.0, 0.0, 1.0],
                                        4 => [2.0 * a, 0.0, 0.0, 3.0 * b * b],
                                        _ => [1.0, 0.0, 0.0, 1.0],
                                    }
                                };
                                let mut x = Vector::from(&[-2.0 + 0.5 * ix as f64, -2.1 + 0.5 * iy as f64]);
                                let (mut nf, mut nj) = (0, 0);
                                let res = s.solve(
                                    &mut x,
                                    &mut 0,
                                    |r, x, _: &mut NoArgs| {
                                        nf += 1;
                                        let v = f(x);
                                        r[0] = v[0];
                                        r[1] = v[1];
                                        Ok(())
                                    },
                                    |jj, x, _: &mut NoArgs| {
                                        nj += 1;
                                        let v = jac(x);
                                        for i in 0..4 {
                                            jj.set(i / 2, i % 2, v[i]);
                                        }
                                        Ok(())
                                    },
                                );
                                let r = f(&x);
                                if res.is_ok() {
                                    ensure!(r[0].abs() < tol && r[1].abs() < tol, "success with residual {:?} at {:?}", r, x.as_data());
                                }
                                if w == 2 && maxit == 20 && ls {
                                    // convex scalar equation: the globalised method converges from everywhere but the singular point
                                    t.state(&res.is_ok());
                                }
                                let st = s.get_stats()?;
                                ensure!(st.get_n_function() == nf && st.get_n_jacobian() == nj && nj <= maxit, "counted {} {} instead of {} {}", st.get_n_function(), st.get_n_jacobian(), nf, nj);
                                Ok(())
                            });
                        }
                    }
                }
            }
        }
    });
    run.section("newton-refusals", 1, |ctx, _| {
        for (dim, xdim, maxit, tol, div, alpha, ok) in [(1, 1, 20, 1e-10, 1e6, 1.0, true), (1, 2, 20, 1e-10, 1e6, 1.0, false), (1, 1, 0, 1e-10, 1e6, 1.0, false), (1, 1, 20, 1e-16, 1e6, 1.0, false), (1, 1, 20, 1e-10, 0.5, 1.0, false), (1, 1, 20, 1e-10, 1e6, 0.0, false)] {
            ctx.case(format!("{:?}", (dim, xdim, maxit, tol, div, alpha)), |t| {
                t.op();
                let mut s = NewtonSolver::new(dim)?;
                s.set_max_iterations(maxit).set_tolerance(tol).set_divergent_tol(div).set_initial_alpha(alpha);
                let mut x = Vector::filled(xdim, 1.0);
                let r = s.solve(
                    &mut x,
                    &mut 0,
                    |r, x, _: &mut NoArgs| {
                        r[0] = 2.0 * x[0] - 1.0;
                        Ok(())
                    },
                    |jj, _, _: &mut NoArgs| {
                        jj.set(0, 0, 2.0);
                        Ok(())
                    },
                );
                ensure!(r.is_ok() == ok, "{:?}", r);
                ensure!(NewtonSolver::new(0).is_err(), "ndim = 0 accepted");
                Ok(())
            });
        }
    });
}

fn line(run: &mut Run) {
    let n = run.pick(7, 11);
    run.section("line-search", pow(n, 3), |ctx, w| {
        let c: Vec<f64> = digits(w, n, 3).iter().map(|d| *d as f64 - (n / 2) as f64).collect();
        let c = [1.0, c[0], c[1], c[2]];
        let dc = deriv(&c);
        for x in [-1.0, 0.0, 0.5, 2.0] {
            for p in [-8.0, -1.0, 0.5, 3.0, 1e4] {
                for c1 in [1e-4, 0.3, 0.9] {
                    for rho in [0.5, 0.3, 0.9] {
                        ctx.case(format!("coefs={:?} x={} p={} c1={} rho={}", c, x, p, c1, rho), |t| {
                            t.op();
                            let mut s = LineSearcher::new();
                            s.c1 = c1;
                            s.rho = rho;
                            s.max_iterations = 12;
                            s.min_alpha = 1e-4;
                            let fx = horner(&c, x);
                            let slope = horner(&dc, x) * p;
                            let mut log = Vec::new();
                            let res = s.search(x, p, fx, slope, &mut 0, |x, _: &mut NoArgs| {
                                log.push(x);
                                Ok(horner(&c, x))
                            });
                            if slope >= 0.0 {
                                ensure!(res.is_err() && log.is_empty(), "ascent direction accepted");
                                t.trivial();
                                return Ok(());
                            }
                            let mut alpha = 1.0;
                            let mut expect = None;
                            for k in 0..12 {
                                if horner(&c, x + alpha * p) <= fx + c1 * alpha * slope {
                                    expect = Some((alpha, k + 1));
                                    break;
                                }
                                alpha *= rho;
                                if alpha < 1e-4 {
                                    break;
                                }
                            }
                            match (res, expect) {
                                (Ok((a, k)), Some((ea, ek))) => {
                                    ensure!(rel(a, ea, 1e-12) && k == ek && log.len() == k, "({},{}) instead of ({},{})", a, k, ea, ek);
                                    ensure!(horner(&c, x + a * p) <= fx + c1 * a * slope + 1e-12 * fx.abs(), "no sufficient decrease");
                                }
                                (Err(_), None) => (),
                                (r, e) => fail!("{:?} instead of {:?}", r, e),
                            }
                            Ok(())
                        });
                    }
                }
            }
        }
    });
    run.section("line-search-refusals", 1, |ctx, _| {
        for (c1, rho, ma, it) in [(0.0, 0.5, 1e-20, 20), (1.0, 0.5, 1e-20, 20), (0.1, 0.0, 1e-20, 20), (0.1, 1.0, 1e-20, 20), (0.1, 0.5, 0.0, 20), (0.1, 0.5, 1.0, 20), (0.1, 0.5, 1e-20, 0)] {
            ctx.case(format!("{:?}", (c1, rho, ma, it)), |t| {
                t.op();
                let s = LineSearcher { c1, rho, min_alpha: ma, max_iterations: it };
                ensure!(s.search(1.0, -1.0, 1.0, -2.0, &mut 0, |x, _: &mut NoArgs| Ok(x * x)).is_err(), "accepted");
                Ok(())
            });
        }
        ctx.case("free functions", |t| {
            t.ops(2);
            let f = |x: f64, _: &mut NoArgs| Ok(x * x);
            ensure!(line_search(1.0, -1.0, 1.0, -2.0, &mut 0, f)? == 1.0, "line_search");
            ensure!(line_search_with_stats(1.0, -4.0, 1.0, -8.0, &mut 0, f)? == (0.25, 3), "line_search_with_stats {:?}", line_search_with_stats(1.0, -4.0, 1.0, -8.0, &mut 0, f));
            Ok(())
        });
    });
}

fn fitting(run: &mut Run) {
    run.section("linear-fitting", 5, |ctx, n| {
        for i in 0..pow(5, 2 * n) {
            if n == 4 && !ctx.thorough() && i % 1 != 0 {
                continue;
            }
            let d = digits(i, 5, 2 * n);
            let x: Vec<i32> = d[..n].iter().map(|v| *v as i32 - 2).collect();
            let y: Vec<i32> = d[n..].iter().map(|v| *v as i32 - 2).collect();
            ctx.case(format!("x={:?} y={:?}", x, y), |t| {
                t.ops(2);
                for zero in [false, true] {
                    let (c, m) = linear_fitting(&x, &y, zero)?;
                    let xf: Vec<f64> = x.iter().map(|v| *v as f64).collect();
                    let yf: Vec<f64> = y.iter().map(|v| *v as f64).collect();
                    let r2 = linear_fitting(&xf, &yf, zero)?;
                    ensure!(r2 == (c, m), "integer data give {:?}, real data {:?}", (c, m), r2);
                    let degenerate = if zero { x.iter().all(|v| *v == 0) } else { x.iter().all(|v| *v == x[0]) };
                    if degenerate {
                        ensure!(c == 0.0 && m == f64::INFINITY, "degenerate data give {:?}", (c, m));
                        continue;
                    }
                    let res: Vec<f64> = (0..n).map(|i| yf[i] - c - m * xf[i]).collect();
                    let s0: f64 = res.iter().sum();
                    let s1: f64 = res.iter().zip(&xf).map(|(r, x)| r * x).sum();
                    ensure!(s1.abs() < 1e-12 && (zero && c == 0.0 || !zero && s0.abs() < 1e-12), "not the least-squares line: c={} m={}", c, m);
                }
                Ok(())
            });
        }
        ctx.case(format!("different lengths {}", n), |t| {
            t.op();
            ensure!(linear_fitting(&vec![1.0; n], &vec![1.0; n + 1], false).is_err(), "accepted");
            Ok(())
        });
    });
}

/// Many points: the residual of the fit is orthogonal to the columns
fn fitting_many(run: &mut Run) {
    run.section("linear-fitting-many", 130, |ctx, w| {
        let n = w + 5;
        for shape in 0..6 {
            ctx.case(format!("{n} points, shape {shape}"), |t| {
                t.ops(2);
                let x: Vec<i64> = (0..n).map(|i| if shape % 2 == 0 { i as i64 } else { (i * 7 % 31) as i64 - 3 }).collect();
                let y: Vec<i64> = (0..n).map(|i| 3 * x[i] - 5 + [0, (i * i % 11) as i64, if i == n - 1 { 100 } else { 0 }][shape / 2]).collect();
                t.state(&(&x, &y));
                for zero in [false, true] {
                    let (c, m) = linear_fitting(&x, &y, zero)?;
                    let xf: Vec<f64> = x.iter().map(|v| *v as f64).collect();
                    let yf: Vec<f64> = y.iter().map(|v| *v as f64).collect();
                    ensure!(linear_fitting(&xf, &yf, zero)? == (c, m), "integer and real data differ");
                    let res: Vec<f64> = (0..n).map(|i| yf[i] - c - m * xf[i]).collect();
                    let s0: f64 = res.iter().sum();
                    let s1: f64 = res.iter().zip(&xf).map(|(r, x)| r * x).sum();
                    let size: f64 = xf.iter().zip(&yf).map(|(a, b)| (1.0 + a.abs()) * (1.0 + b.abs())).sum();
                    ensure!(s1.abs() < 1e-12 * size && (zero && c == 0.0 || !zero && s0.abs() < 1e-12 * size), "not the least-squares line: c={c} m={m}");
                }
                Ok(())
            });
        }
    });
}

fn cubic(run: &mut Run) {
    let leading = [1.0, -1.0, 2.0, 0.125, 1e3, -1e-3];
    let scales = [1.0, 0.5, 0.01, 1e-3, 1e-4, 10.0, 100.0, 1e4];
    let n = run.pick(15, 31);
    let half = (n / 2) as f64;
    let check = |t: &mut Trace, a: f64, c: &[f64], real: &[f64], tol: f64, scale: f64| -> Outcome {
        t.op();
        let got = solve_cubic(a * c[3], a * c[2], a * c[1], a * c[0])?;
        ensure!(got.windows(2).all(|w| w[0] <= w[1]), "not sorted {:?}", got);
        ensure!(got.len() == real.len(), "roots {:?} instead of {:?}", got, real);
        for (g, e) in got.iter().zip(real) {
            ensure!(near(*g, *e, tol * scale), "roots {:?} instead of {:?}", got, real);
        }
        Ok(())
    };
    run.section("cubic-real-roots", pow(n, 3), |ctx, w| {
        let mut r: Vec<f64> = digits(w, n, 3).iter().map(|d| *d as f64 - half).collect();
        if r[0] > r[1] || r[1] > r[2] {
            return;
        }
        r.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let distinct = r[0] < r[1] && r[1] < r[2];
        for s in scales {
            let roots: Vec<f64> = r.iter().map(|v| v * s).collect();
            let c = from_roots(&roots);
            for a in leading {
                ctx.case(format!("a={} roots={:?}", a, roots), |t| {
                    if distinct {
                        check(t, a, &c, &roots, 1e-9, s)
                    } else {
                        // multiple roots are ill-conditioned: the computed roots are near the exact ones and include the simple one
                        t.op();
                        let got = solve_cubic(a * c[3], a * c[2], a * c[1], a * c[0])?;
                        for g in &got {
                            ensure!(roots.iter().any(|e| near(*g, *e, 2e-4 * s * (1.0 + half))), "roots {:?} instead of {:?}", got, roots);
                        }
                        if r[0] != r[2] {
                            let simple = if r[0] == r[1] { roots[2] } else { roots[0] };
                            ensure!(got.iter().any(|g| near(*g, simple, 1e-6 * s)), "roots {:?} instead of {:?}", got, roots);
                        }
                        ensure!(got.len() == 3 || got.len() == 1, "{} roots", got.len());
                        if s == 1.0 && a == 1.0 {
                            ensure!(got.len() == 3, "roots {:?} instead of {:?}", got, roots);
                        }
                        Ok(())
                    }
                });
            }
        }
    });
    run.section("cubic-complex-pair", pow(n, 2), |ctx, w| {
        let d = digits(w, n, 2);
        let (r, re) = (d[0] as f64 - half, d[1] as f64 - half);
        for im in [0.5, 1.0, 2.0, 5.0] {
            for s in scales {
                let (rr, a, b) = (r * s, re * s, im * s);
                // (x - rr) (x^2 - 2 a x + a^2 + b^2)
                let q = [a * a + b * b, -2.0 * a, 1.0];
                let c = [-rr * q[0], q[0] - rr * q[1], q[1] - rr, 1.0];
                for lead in leading {
                    ctx.case(format!("a={} root={} pair={}±{}i", lead, rr, a, b), |t| check(t, lead, &c, &[rr], 1e-9, s));
                }
            }
        }
    });
    run.section("cubic-refusals", 1, |ctx, _| {
        for a in [0.0, 1e-13, -1e-13] {
            ctx.case(format!("a={}", a), |t| {
                t.op();
                ensure!(solve_cubic(a, 1.0, 1.0, 1.0).is_err(), "accepted");
                Ok(())
            });
        }
    });
}

fn derivatives(run: &mut Run) {
    let n = run.pick(5, 7);
    let h = (n / 2) as f64;
    run.section("numerical-derivatives", pow(n, 5), |ctx, w| {
        let c: Vec<f64> = digits(w, n, 5).iter().map(|d| *d as f64 - h).collect();
        let d1 = deriv(&c);
        let d2 = deriv(&d1);
        for x in [-2.0, -0.5, 0.0, 0.1, 1.0, 3.0] {
            ctx.case(format!("coefs={:?} x={}", c, x), |t| {
                t.ops(6);
                let f = |x: f64, _: &mut NoArgs| Ok(horner(&c, x));
                let (e1, e2) = (horner(&d1, x), horner(&d2, x));
                let m = 1.0 + c.iter().enumerate().map(|(k, a)| a.abs() * x.abs().max(1.0).powi(k as i32)).sum::<f64>();
                for (name, v, e, tol) in [
                    ("deriv1_central5", deriv1_central5(x, &mut 0, f)?, e1, 1e-9),
                    ("deriv1_forward7", deriv1_forward7(x, &mut 0, f)?, e1, 1e-10),
                    ("deriv1_backward7", deriv1_backward7(x, &mut 0, f)?, e1, 1e-10),
                    ("deriv2_central9", deriv2_central9(x, &mut 0, f)?, e2, 1e-7),
                    ("deriv2_forward8", deriv2_forward8(x, &mut 0, f)?, e2, 1e-7),
                    ("deriv2_backward8", deriv2_backward8(x, &mut 0, f)?, e2, 1e-7),
                ] {
                    ensure!(near(v, e, tol * m), "{} gives {} instead of {}", name, v, e);
                }
                // the assertion helpers accept the right value and reject a wrong one
                let tol = 1e-6 * m;
                ensure!(guarded(|| deriv1_approx_eq(e1, x, &mut 0, tol, f)).is_ok() && guarded(|| deriv1_approx_eq_fw(e1, x, &mut 0, tol, f)).is_ok() && guarded(|| deriv1_approx_eq_bw(e1, x, &mut 0, tol, f)).is_ok(), "right first derivative rejected");
                ensure!(guarded(|| deriv2_approx_eq(e2, x, &mut 0, tol, f)).is_ok() && guarded(|| deriv2_approx_eq_fw(e2, x, &mut 0, tol, f)).is_ok() && guarded(|| deriv2_approx_eq_bw(e2, x, &mut 0, tol, f)).is_ok(), "right second derivative rejected");
                for bad in [3.0 * tol, -3.0 * tol] {
                    ensure!(guarded(|| deriv1_approx_eq(e1 + bad, x, &mut 0, tol, f)).is_err() && guarded(|| deriv1_approx_eq_fw(e1 + bad, x, &mut 0, tol, f)).is_err() && guarded(|| deriv1_approx_eq_bw(e1 + bad, x, &mut 0, tol, f)).is_err(), "wrong first derivative accepted");
                    ensure!(guarded(|| deriv2_approx_eq(e2 + bad, x, &mut 0, tol, f)).is_err() && guarded(|| deriv2_approx_eq_fw(e2 + bad, x, &mut 0, tol, f)).is_err() && guarded(|| deriv2_approx_eq_bw(e2 + bad, x, &mut 0, tol, f)).is_err(), "wrong second derivative accepted");
                }
                Ok(())
            });
        }
    });
    let dims = [1, 2, 3, 4, 5, 7, 9, 17, 21, 33];
    run.section("numerical-jacobian", dims.len(), |ctx, k| {
        let ndim = dims[k];
        for seed in 0..if ndim > 5 { 2 } else { 20 } {
            for alpha in [1.0, -2.5, 0.0] {
                for xat in [0.0, 1.5] {
                    ctx.case(format!("ndim={} seed={} alpha={} x={}", ndim, seed, alpha, xat), |t| {
                        t.op();
                        let co = |i: usize, j: usize, q: usize| crate::l01::ival(seed + q, i, j) as f64;
                        let y = Vector::initialized(ndim, |i| 0.5 * co(i, i, 3));
                        let mut marker = 7usize;
                        let jj = num_jacobian(ndim, xat, &y, alpha, &mut marker, |f, x, y, m: &mut usize| {
                            if *m != 7 {
                                return Err("args not passed");
                            }
                            for i in 0..ndim {
                                f[i] = (0..ndim).map(|j| co(i, j, 0) * y[j] * y[j] + co(i, j, 1) * y[j] * x + co(i, j, 2) * y[j] * y[(j + 1) % ndim]).sum();
                            }
                            Ok(())
                        })?;
                        for i in 0..ndim {
                            for j in 0..ndim {
                                let prev = (j + ndim - 1) % ndim;
                                let mut e = 2.0 * co(i, j, 0) * y[j] + co(i, j, 1) * xat;
                                if ndim == 1 {
                                    e += 2.0 * co(i, j, 2) * y[j];
                                } else {
                                    e += co(i, j, 2) * y[(j + 1) % ndim] + co(i, prev, 2) * y[prev];
                                }
                                ensure!(near(jj.get(i, j), alpha * e, 2e-7 * ndim.max(5) as f64), "J({},{}) is {} instead of {}", i, j, jj.get(i, j), alpha * e);
                            }
                        }
                        Ok(())
                    });
                }
            }
        }
    });
}

fn assertions(run: &mut Run) {
    let vals = [0.0, -0.0, 1.0, 1.0 + 1e-9, -1.0, 1e300, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 1e-320];
    run.section("assertions", vals.len() * vals.len(), |ctx, w| {
        let (a, b) = (vals[w / vals.len()], vals[w % vals.len()]);
        for tol in [1e-15, 1e-8, 1.0] {
            ctx.case(format!("a={} b={} tol={}", a, b, tol), |t| {
                t.ops(4);
                let ok = a.is_finite() && b.is_finite() && (a - b).abs() <= tol;
                ensure!(guarded(|| approx_eq(a, b, tol)).is_ok() == ok, "approx_eq accepted = {}", !ok);
                let (ca, cb) = (Complex64::new(0.5, a), Complex64::new(0.5, b));
                ensure!(guarded(|| complex_approx_eq(ca, cb, tol)).is_ok() == ok, "complex_approx_eq accepted = {}", !ok);
                let (ca2, cb2) = (Complex64::new(a, 0.5), Complex64::new(b, 0.5));
                ensure!(guarded(|| complex_approx_eq(ca2, cb2, tol)).is_ok() == ok, "complex_approx_eq (re) accepted = {}", !ok);
                for pos in 0..3 {
                    let mut u = [2.0; 3];
                    let mut v = [2.0; 3];
                    u[pos] = a;
                    v[pos] = b;
                    ensure!(guarded(|| array_approx_eq(&u, &v, tol)).is_ok() == ok, "array_approx_eq accepted = {}", !ok);
                    let cu: Vec<Complex64> = u.iter().map(|x| Complex64::new(1.0, *x)).collect();
                    let cv: Vec<Complex64> = v.iter().map(|x| Complex64::new(1.0, *x)).collect();
                    ensure!(guarded(|| complex_array_approx_eq(&cu, &cv, tol)).is_ok() == ok, "complex_array_approx_eq accepted = {}", !ok);
                }
                ensure!(guarded(|| array_approx_eq(&[1.0], &[1.0, 2.0], 1.0)).is_err() && guarded(|| complex_array_approx_eq(&[ca], &[], 1.0)).is_err(), "different lengths accepted");
                Ok(())
            });
        }
        ctx.case(format!("alike a={} b={}", a, b), |t| {
            t.op();
            let same = a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()) || (a == b);
            if same != guarded(|| assert_alike(a, b)).is_ok() && !(a == 0.0 && b == 0.0) {
                fail!("assert_alike accepted = {}", !same);
            }
            Ok(())
        });
    });
}

pub fn explore(run: &mut Run) {
    run.level("exploration", "every polynomial with small integer coefficients or roots (several scalings) and every function of a fixed family x every bracket / starting point / option of the lattice, for each algorithm; the returned answer is checked against the defining condition computed independently");
    root_brent(run);
    root_chebyshev(run);
    minimise(run);
    quadrature(run);
    newton(run);
    line(run);
    fitting(run);
    fitting_many(run);
    cubic(run);
    derivatives(run);
    assertions(run);
}
