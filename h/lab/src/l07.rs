//! L07: failing callbacks and statistics

use mc::*;
use russell_lab::*;

const INJECTED: &str = "injected failure";

/// User arguments: counts the calls and fails at a given one
struct Probe {
    calls: usize,
    n_f: usize,
    n_j: usize,
    fail_at: usize, // 0: never
}

impl Probe {
    fn new(fail_at: usize) -> Self {
        Probe { calls: 0, n_f: 0, n_j: 0, fail_at }
    }
    fn hit(&mut self) -> Result<(), StrError> {
        self.calls += 1;
        if self.fail_at > 0 && self.calls == self.fail_at {
            return Err(INJECTED);
        }
        Ok(())
    }
    fn f(&mut self) -> Result<(), StrError> {
        self.n_f += 1;
        self.hit()
    }
    fn j(&mut self) -> Result<(), StrError> {
        self.n_j += 1;
        self.hit()
    }
}

/// Objects under test
struct Objs {
    root: RootFinder,
    min: MinSolver,
    bracket: MinBracketing,
    quad: Quadrature,
    newton: NewtonSolver,
    line: LineSearcher,
    cheb: InterpChebyshev,
    lag: InterpLagrange,
}

impl Objs {
    fn new() -> Self {
        let mut root = RootFinder::new();
        root.set_enable_stats(true);
        let mut min = MinSolver::new();
        min.set_enable_stats(true);
        let mut bracket = MinBracketing::new();
        bracket.set_enable_stats(true);
        let mut quad = Quadrature::new();
        quad.set_enable_stats(true);
        let mut newton = NewtonSolver::new(2).unwrap();
        newton.set_enable_stats(true);
        let mut params = InterpParams::new();
        params.error_estimate_nstation = 9;
        Objs {
            root,
            min,
            bracket,
            quad,
            newton,
            line: LineSearcher::new(),
            cheb: InterpChebyshev::new(12, -1.0, 2.0).unwrap(),
            lag: InterpLagrange::new(4, Some(params)).unwrap(),
        }
    }
}

/// Result of a scenario: values and (function, Jacobian) counters when reported
type Got = (Vec<f64>, Option<(usize, usize)>);

type Scenario = (String, Box<dyn Fn(&mut Objs, &mut Probe) -> Result<Got, StrError> + Sync>);

fn scenarios() -> Vec<Scenario> {
    let mut all: Vec<Scenario> = Vec::new();
    let stats = |s: &Stats| Some((s.get_n_function(), s.get_n_jacobian()));
    // root finding
    for c in [0.5, 1.25, 1.9] {
        for (a, b) in [(0.0, 2.0), (2.5, -1.0)] {
            all.push((
                format!("root-brent c={} [{},{}]", c, a, b),
                Box::new(move |o, p| {
                    let x = o.root.brent(a, b, p, |x, p| {
                        p.f()?;
                        Ok(x * x * x - c * c * c)
                    })?;
                    Ok((vec![x], stats(o.root.get_stats()?)))
                }),
            ));
        }
        all.push((
            format!("root-refine c={}", c),
            Box::new(move |o, p| {
                let mut r = [c + 0.01, -c - 0.02, 0.03];
                o.root.refine(&mut r, -c - 0.02, 3.0, p, |x, p| {
                    p.f()?;
                    Ok(x * (x * x - c * c))
                })?;
                Ok((r.to_vec(), None))
            }),
        ));
        all.push((
            format!("min-brent c={}", c),
            Box::new(move |o, p| {
                let x = o.min.brent(-1.0, 3.0, p, |x, p| {
                    p.f()?;
                    Ok((x - c) * (x - c) + 0.1 * x.abs())
                })?;
                Ok((vec![x], stats(o.min.get_stats()?)))
            }),
        ));
        for g in [-2.0, 5.0] {
            all.push((
                format!("bracketing c={} guess={}", c, g),
                Box::new(move |o, p| {
                    let b = o.bracket.basic(g, p, |x, p| {
                        p.f()?;
                        Ok((x - c) * (x - c))
                    })?;
                    Ok((vec![b.a, b.b, b.xo, b.fa, b.fb, b.fxo], stats(o.bracket.get_stats()?)))
                }),
            ));
        }
    }
    // quadrature
    for n in [6, 8, 10, 12, 14] {
        for w in [1.0, 30.0] {
            all.push((
                format!("quadrature n={} w={}", n, w),
                Box::new(move |o, p| {
                    o.quad.n_gauss = n;
                    let v = o.quad.integrate(-1.0, 1.5, p, |x, p| {
                        p.f()?;
                        Ok(f64::exp(-w * x * x) + (x * w / 3.0).sin())
                    })?;
                    let e = o.quad.get_stats()?.get_error_estimate();
                    Ok((vec![v, e], stats(o.quad.get_stats()?)))
                }),
            ));
        }
    }
    // Newton
    for ls in [false, true] {
        for (x0, y0) in [(2.0, 0.5), (-4.0, 3.0), (0.3, 0.1)] {
            all.push((
                format!("newton ls={} ({},{})", ls, x0, y0),
                Box::new(move |o, p| {
                    o.newton.set_use_line_search(ls);
                    let mut x = Vector::from(&[x0, y0]);
                    o.newton.solve(
                        &mut x,
                        p,
                        |r, x, p| {
                            p.f()?;
                            r[0] = x[0] * x[0] + x[1] * x[1] - 4.0;
                            r[1] = x[0] * x[1] - 1.0;
                            Ok(())
                        },
                        |jj, x, p| {
                            p.j()?;
                            jj.set(0, 0, 2.0 * x[0]);
                            jj.set(0, 1, 2.0 * x[1]);
                            jj.set(1, 0, x[1]);
                            jj.set(1, 1, x[0]);
                            Ok(())
                        },
                    )?;
                    Ok((x.as_data().to_vec(), stats(o.newton.get_stats()?)))
                }),
            ));
        }
    }
    // line search
    for step in [-1.0, -3.0, -20.0] {
        all.push((
            format!("line-search p={}", step),
            Box::new(move |o, p| {
                let (a, n) = o.line.search(1.0, step, 1.0, 2.0 * step, p, |x, p| {
                    p.f()?;
                    Ok(x * x)
                })?;
                Ok((vec![a], Some((n, 0))))
            }),
        ));
        all.push((
            format!("line_search p={}", step),
            Box::new(move |_, p| {
                let a = line_search(1.0, step, 1.0, 2.0 * step, p, |x, p: &mut Probe| {
                    p.f()?;
                    Ok(x * x)
                })?;
                Ok((vec![a], None))
            }),
        ));
    }
    // numerical derivatives
    for kind in 0..6 {
        all.push((
            format!("deriv kind={}", kind),
            Box::new(move |_, p| {
                let f = |x: f64, p: &mut Probe| {
                    p.f()?;
                    Ok(f64::sin(x))
                };
                let v = match kind {
                    0 => deriv1_central5(0.7, p, f),
                    1 => deriv1_forward7(0.7, p, f),
                    2 => deriv1_backward7(0.7, p, f),
                    3 => deriv2_central9(0.7, p, f),
                    4 => deriv2_forward8(0.7, p, f),
                    _ => deriv2_backward8(0.7, p, f),
                }?;
                Ok((vec![v], None))
            }),
        ));
    }
    for n in [1, 2, 3] {
        all.push((
            format!("jacobian n={}", n),
            Box::new(move |_, p| {
                let y = Vector::initialized(n, |i| 0.5 + i as f64);
                let jj = num_jacobian(n, 0.2, &y, 1.5, p, |f, x, y, p: &mut Probe| {
                    p.f()?;
                    for i in 0..n {
                        f[i] = y[i].sin() * y[0] + x * y[n - 1];
                    }
                    Ok(())
                })?;
                Ok((jj.as_data().to_vec(), None))
            }),
        ));
    }
    // interpolation
    for kind in 0..5 {
        all.push((
            format!("chebyshev kind={}", kind),
            Box::new(move |o, p| {
                let f = |x: f64, p: &mut Probe| {
                    p.f()?;
                    Ok(1.0 + x + 2.0 * x * x - x * x * x)
                };
                match kind {
                    0 => o.cheb.set_function(0, p, f)?,
                    1 => o.cheb.set_function(3, p, f)?,
                    2 => o.cheb.set_function(7, p, f)?,
                    3 => o.cheb.adapt_function(1e-9, p, f)?,
                    _ => {
                        o.cheb.set_data(&[1.0, 2.0, 0.5, 3.0])?;
                        let e = o.cheb.estimate_max_error(7, p, f)?;
                        return Ok((vec![e], None));
                    }
                }
                let mut v = vec![o.cheb.get_degree() as f64];
                for i in 0..5 {
                    v.push(o.cheb.eval(-1.0 + 0.7 * i as f64)?);
                }
                Ok((v, None))
            }),
        ));
    }
    for all_ders in [false, true] {
        for excl in [false, true] {
            all.push((
                format!("lagrange all={} exclude={}", all_ders, excl),
                Box::new(move |o, p| {
                    let f = |x: f64, p: &mut Probe| {
                        p.f()?;
                        Ok(f64::exp(x))
                    };
                    if all_ders {
                        let e = o.lag.estimate_max_error_all(excl, p, f, f, f)?;
                        Ok((vec![e.0, e.1, e.2], None))
                    } else {
                        Ok((vec![o.lag.estimate_max_error(p, f)?], None))
                    }
                }),
            ));
        }
    }
    all
}

fn bits(v: &[f64]) -> Vec<u64> {
    v.iter().map(|x| x.to_bits()).collect()
}

pub fn explore(run: &mut Run) {
    run.level(
        "fault_enumeration",
        "every algorithm taking callbacks x every call of the callback as fault point, followed by a successful use of the same object and by a second fault (pairs); and every ordered pair of scenarios sharing one object; results compared bit by bit with a fresh object",
    );
    run.assume("the k-th call of a deterministic algorithm is the same in every run with the same data");
    let all = scenarios();
    let base: Vec<(Vec<u64>, Option<(usize, usize)>, usize)> = all
        .iter()
        .map(|(_, f)| {
            let mut p = Probe::new(0);
            match guarded(|| f(&mut Objs::new(), &mut p)) {
                Ok(Ok((v, s))) => (bits(&v), s, p.calls),
                _ => (Vec::new(), None, 0),
            }
        })
        .collect();
    let pairs = run.pick(120, 400);
    run.section("faults", all.len(), |ctx, w| {
        let (name, f) = &all[w];
        let (expect, stats, calls) = &base[w];
        ctx.case(format!("{} without fault", name), |t| {
            t.ops(*calls);
            let mut p = Probe::new(0);
            let (v, s) = f(&mut Objs::new(), &mut p)?;
            ensure!(bits(&v) == *expect && p.calls == *calls, "two fresh objects disagree");
            if let Some((nf, nj)) = s {
                ensure!(nf == p.n_f && nj == p.n_j, "counted {} function and {} Jacobian calls instead of {} and {}", nf, nj, p.n_f, p.n_j);
            }
            ensure!(*calls > 0, "the callback was never called");
            Ok(())
        });
        let attempt = |o: &mut Objs, t: &mut Trace, k: usize| -> Outcome {
            let mut p = Probe::new(k);
            t.ops(k);
            match f(o, &mut p) {
                Ok(_) => fail!("the failure of call {} was ignored", k),
                Err(e) => ensure!(e == INJECTED && std::ptr::eq(e.as_ptr(), INJECTED.as_ptr()), "returned \"{}\" instead of the error of the callback", e),
            }
            ensure!(p.calls == k, "the callback was called {} times after its failure at call {}", p.calls - k, k);
            Ok(())
        };
        let again = |o: &mut Objs, t: &mut Trace| -> Outcome {
            let mut p = Probe::new(0);
            t.ops(*calls);
            let (v, s) = f(o, &mut p)?;
            ensure!(bits(&v) == *expect, "after a failure: {:?} instead of {:?}", v, expect.iter().map(|b| f64::from_bits(*b)).collect::<Vec<_>>());
            ensure!(s == *stats, "statistics after a failure: {:?} instead of {:?}", s, stats);
            t.state(&(w, bits(&v)));
            Ok(())
        };
        for k in 1..=*calls {
            ctx.case(format!("{} fault={}", name, k), |t| {
                let mut o = Objs::new();
                attempt(&mut o, t, k)?;
                again(&mut o, t)?;
                again(&mut o, t)
            });
            if k <= pairs {
                for k2 in 1..=(*calls).min(pairs) {
                    ctx.case(format!("{} faults={},{}", name, k, k2), |t| {
                        let mut o = Objs::new();
                        attempt(&mut o, t, k)?;
                        attempt(&mut o, t, k2)?;
                        again(&mut o, t)
                    });
                }
            }
        }
    });
    // any scenario after any other (failed half way or completed) on the same objects
    run.section("reuse", all.len(), |ctx, w| {
        for (j, (name, f)) in all.iter().enumerate() {
            for (label, fault) in [("completed", 0), ("failed at first", 1), ("failed half way", base[w].2 / 2 + 1), ("failed at last", base[w].2)] {
                ctx.case(format!("{} {} then {}", all[w].0, label, name), |t| {
                    let mut o = Objs::new();
                    t.ops(2);
                    let mut p = Probe::new(fault);
                    let first = all[w].1(&mut o, &mut p);
                    ensure!(first.is_err() == (fault > 0), "first use: {:?}", first);
                    let mut p = Probe::new(0);
                    let (v, s) = f(&mut o, &mut p)?;
                    ensure!(bits(&v) == base[j].0 && s == base[j].1, "{:?} {:?} instead of {:?} {:?}", v, s, base[j].0.iter().map(|b| f64::from_bits(*b)).collect::<Vec<_>>(), base[j].1);
                    Ok(())
                });
            }
        }
    });
    // functions are never evaluated outside of the interval they are given for
    let family: [(&str, fn(f64) -> f64); 9] = [
        ("x", |x| x),
        ("x^3-2x", |x| x * x * x - 2.0 * x),
        ("(x-0.3)^2", |x| (x - 0.3) * (x - 0.3)),
        ("|x+0.2|", |x| (x + 0.2).abs()),
        ("exp", f64::exp),
        ("-exp", |x| -x.exp()),
        ("sin 20x", |x| (20.0 * x).sin()),
        ("flat", |x| if x < 0.1 { 0.0 } else { x - 0.1 }),
        ("sign", |x| if x < 0.15 { -1.0 } else { 1.0 }),
    ];
    let ends = [-8.0, -1.0, -0.7, 0.0, 0.1, 1.0 / 3.0, 1.0, 2.3, 1e3];
    run.section("intervals", ends.len() * ends.len(), |ctx, w| {
        let (a, b) = (ends[w / ends.len()], ends[w % ends.len()]);
        if a == b {
            return;
        }
        let (lo, hi) = (f64::min(a, b), f64::max(a, b));
        // (a map of the reference interval may miss its own end points by rounding)
        let slack = 4.0 * f64::EPSILON * f64::max(lo.abs(), hi.abs());
        for (name, g) in family {
            for algo in 0..12 {
                if a > b && !(algo == 0 || algo == 1 || algo == 2) {
                    continue;
                }
                ctx.case(format!("{name} [{a},{b}] algorithm {algo}"), |t| {
                    let mut outside: Option<f64> = None;
                    let mut calls = 0;
                    {
                        let mut f = |x: f64, _: &mut u8| {
                            calls += 1;
                            if !(x >= lo - slack && x <= hi + slack) {
                                outside = Some(x);
                                return Err("outside");
                            }
                            Ok(g(x))
                        };
                        let o = &mut Objs::new();
                        let args = &mut 0u8;
                        match algo {
                            0 => drop(o.root.brent(a, b, args, &mut f)),
                            1 => drop(o.min.brent(a, b, args, &mut f)),
                            2 => drop(o.quad.integrate(a, b, args, &mut f)),
                            3 | 4 | 5 | 6 => {
                                let mut c = InterpChebyshev::new(24, a, b)?;
                                c.set_function([0, 1, 2, 24][algo - 3], args, &mut f)?;
                                c.estimate_max_error(11, args, &mut f)?;
                            }
                            7 => {
                                let mut c = InterpChebyshev::new(24, a, b)?;
                                drop(c.adapt_function(1e-6, args, &mut f));
                            }
                            // one-sided differences at the ends
                            8 => drop(deriv1_forward7(a, args, &mut f)),
                            9 => drop(deriv1_backward7(b, args, &mut f)),
                            10 => drop(deriv2_forward8(a, args, &mut f)),
                            _ => drop(deriv2_backward8(b, args, &mut f)),
                        }
                    }
                    t.ops(calls);
                    ensure!(outside.is_none(), "the function was evaluated at {:?}", outside);
                    ensure!(calls > 0, "the function was never evaluated");
                    Ok(())
                });
            }
        }
        // refinement of a root of a linear function
        for c in [1.0, -3.0] {
            for (r, x0) in [(lo, lo), (lo, hi), (hi, lo), (hi, hi), (0.5 * (lo + hi), lo), (0.5 * (lo + hi), hi)] {
                if a > b || hi > 100.0 {
                    continue;
                }
                ctx.case(format!("refine {c}(x-{r}) from {x0} in [{a},{b}]"), |t| {
                    t.op();
                    let mut outside: Option<f64> = None;
                    let mut roots = [x0];
                    RootFinder::new().refine(&mut roots, a, b, &mut 0u8, |x, _| {
                        // (Newton's step to the root at a bound may miss it by the error of the numerical derivative)
                        if !(x >= lo - 1e-7 * (hi - lo) && x <= hi + 1e-7 * (hi - lo)) {
                            outside = Some(x);
                        }
                        Ok(c * (x - r))
                    })?;
                    ensure!(outside.is_none(), "the function was evaluated at {:?}", outside);
                    ensure!(near(roots[0], r, 1e-8), "root {} instead of {}", roots[0], r);
                    Ok(())
                });
            }
        }
    });
    iterations(run);
    // statistics are refused when disabled and reset when enabled
    run.section("statistics", 1, |ctx, _| {
        ctx.case("disabled", |t| {
            t.ops(5);
            ensure!(RootFinder::new().get_stats().is_err() && MinSolver::new().get_stats().is_err() && MinBracketing::new().get_stats().is_err() && Quadrature::new().get_stats().is_err() && NewtonSolver::new(1)?.get_stats().is_err(), "statistics available although disabled");
            Ok(())
        });
    });
}

/// The number of iterations reported is the smallest limit with which the algorithm succeeds, and the summary has the numbers
fn iterations(run: &mut Run) {
    type Algorithm = (&'static str, fn(usize, usize, usize, bool) -> Result<(Vec<f64>, Option<(Stats, usize, usize)>), StrError>);
    fn curve(which: usize, x: f64) -> f64 {
        match which {
            0 => x * x - 2.0,
            1 => x.exp() - 3.0 * x,
            2 => x.powi(4) - x * x - 0.3,
            3 => (x - 0.7).abs() - 0.1,
            4 => f64::cos(3.0 * x) + 0.2 * x * x,
            _ => (x * x - 2.0) * 1e4,
        }
    }
    let algorithms: [Algorithm; 6] = [
        ("brent root", |which, start, limit, stats| {
            let mut s = RootFinder::new();
            s.brent_max_iterations = limit;
            s.set_enable_stats(stats);
            let mut n = 0;
            let (a, b) = [(-2.0, 0.5), (0.0, 0.75), (0.5, 1.2), (1.25, 3.0), (0.1, 1.0), (-7.0, 0.0)][start];
            let x = s.brent(a, b, &mut 0, |x, _: &mut NoArgs| {
                n += 1;
                Ok(curve(which, x))
            })?;
            let st = if stats { Some((s.get_stats()?.clone(), n, 0)) } else { None };
            Ok((vec![x], st))
        }),
        ("brent minimum", |which, start, limit, stats| {
            let mut s = MinSolver::new();
            s.n_iteration_max = limit;
            s.set_enable_stats(stats);
            let mut n = 0;
            let (a, b) = [(-2.0, 0.5), (0.0, 0.75), (0.5, 1.2), (1.25, 3.0), (0.1, 1.0), (-7.0, 0.0)][start];
            let x = s.brent(a, b, &mut 0, |x, _: &mut NoArgs| {
                n += 1;
                Ok(curve(which, x))
            })?;
            let st = if stats { Some((s.get_stats()?.clone(), n, 0)) } else { None };
            Ok((vec![x], st))
        }),
        ("bracket", |which, start, limit, stats| {
            let mut s = MinBracketing::new();
            s.n_iteration_max = limit;
            s.set_enable_stats(stats);
            let mut n = 0;
            let b = s.basic([-9.0, -1.0, 0.0, 0.3, 2.0, 30.0][start], &mut 0, |x, _: &mut NoArgs| {
                n += 1;
                Ok(curve(which, x))
            })?;
            let st = if stats { Some((s.get_stats()?.clone(), n, 0)) } else { None };
            Ok((vec![b.a, b.b, b.xo, b.fa, b.fb, b.fxo], st))
        }),
        ("quadrature", |which, start, limit, stats| {
            let mut q = Quadrature::new();
            q.n_iteration_max = limit;
            q.set_enable_stats(stats);
            let mut n = 0;
            let (a, b) = [(-2.0, 0.5), (0.0, 0.75), (0.5, 1.2), (3.0, 1.25), (0.1, 11.0), (-7.0, 0.0)][start];
            let v = q.integrate(a, b, &mut 0, |x, _: &mut NoArgs| {
                n += 1;
                Ok(curve(which, x))
            })?;
            let st = if stats { Some((q.get_stats()?.clone(), n, 0)) } else { None };
            Ok((vec![v], st))
        }),
        ("newton", |which, start, limit, stats| newton(which, start, limit, stats, false)),
        ("newton with line search", |which, start, limit, stats| newton(which, start, limit, stats, true)),
    ];
    fn newton(which: usize, start: usize, limit: usize, stats: bool, search: bool) -> Result<(Vec<f64>, Option<(Stats, usize, usize)>), StrError> {
        let mut s = NewtonSolver::new(2)?;
        s.set_max_iterations(limit).set_use_line_search(search).set_enable_stats(stats);
        let mut x = Vector::from(&[[-2.0, 0.4, 1.0, 1.3, 5.0, 0.0][start], 0.5]);
        let (mut nf, mut nj) = (0, 0);
        s.solve(
            &mut x,
            &mut 0,
            |f, x, _: &mut NoArgs| {
                nf += 1;
                f[0] = curve(which, x[0]) + 0.1 * x[1];
                f[1] = x[1] - 0.5 * x[0];
                Ok(())
            },
            |jj, x, _| {
                nj += 1;
                let d = 1e-6;
                jj.set(0, 0, (curve(which, x[0] + d) - curve(which, x[0] - d)) / (2.0 * d));
                jj.set(0, 1, 0.1);
                jj.set(1, 0, -0.5);
                jj.set(1, 1, 1.0);
                Ok(())
            },
        )?;
        let st = if stats { Some((s.get_stats()?.clone(), nf, nj)) } else { None };
        Ok((vec![x[0], x[1]], st))
    }
    run.section("limits of iterations", algorithms.len() * 36, |ctx, w| {
        let ((name, call), which, start) = (algorithms[w / 36], w / 6 % 6, w % 6);
        let free = match guarded(|| call(which, start, 1000, true)) {
            Ok(Ok(v)) => v,
            _ => return, // no root in the interval or no convergence at all: see L06
        };
        let (stats, nf, nj) = free.1.unwrap();
        let k = stats.get_n_iterations();
        ctx.case(format!("{name}/{which}/{start}/summary"), |t| {
            t.op();
            let numbers: Vec<String> = stats.summary().lines().map(|l| l.split('=').nth(1).unwrap_or("").trim().to_string()).collect();
            let want = [nf.to_string(), nj.to_string(), k.to_string()];
            ensure!(numbers.len() >= 3 && numbers[..3] == want, "summary {:?} instead of {:?}", numbers, want);
            ensure!(format!("{}", stats).starts_with(&stats.summary()), "the text does not have the summary");
            Ok(())
        });
        for limit in 2..k + 3 {
            for on in [false, true] {
                ctx.case(format!("{name}/{which}/{start}/limit={limit}/statistics={on}"), |t| {
                    t.op();
                    let got = guarded(|| call(which, start, limit, on))?;
                    if limit < k {
                        ensure!(got.is_err(), "success with {limit} iterations although {k} were needed");
                    } else {
                        let got = got.map_err(|e| format!("fails with {limit} iterations although {k} were needed: {e}"))?;
                        t.state(&bits(&got.0));
                        ensure!(bits(&got.0) == bits(&free.0), "{:?} instead of {:?}", got.0, free.0);
                        if let Some((s, nf, nj)) = got.1 {
                            ensure!((s.get_n_iterations(), s.get_n_function(), s.get_n_jacobian()) == (k, nf, nj), "counters {} {} {} instead of {k} {nf} {nj}", s.get_n_iterations(), s.get_n_function(), s.get_n_jacobian());
                        }
                    }
                    Ok(())
                });
            }
        }
    });
}
