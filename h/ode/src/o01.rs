//! O01: fixed-step integration

use crate::model::*;
use mc::*;
use russell_lab::Vector;
use russell_ode::{Method, NoArgs, OdeSolver, Output, Params, System};
use russell_sparse::{CooMatrix, Sym};
use std::sync::Arc;

struct Run1 {
    y: Vector,
    xs: Vec<f64>,
    hs: Vec<f64>,
    n_steps: usize,
    n_accepted: usize,
}

fn integrate<'a>(params: Params, system: System<'a, NoArgs>, start: &[f64], x0: f64, x1: f64, h: Option<f64>) -> Result<Run1, String> {
    let mut solver = OdeSolver::new(params, system)?;
    let mut out = Output::new();
    out.set_step_recording(&[0]);
    let mut y = Vector::from(&start.to_vec());
    solver.solve(&mut y, x0, x1, h, &mut 0, Some(&mut out))?;
    Ok(Run1 {
        y,
        xs: out.step_x().clone(),
        hs: out.step_h().clone(),
        n_steps: solver.stats().n_steps,
        n_accepted: solver.stats().n_accepted,
    })
}

/// Exactly n equal steps from x0 to x1
fn check_steps(r: &Run1, x0: f64, x1: f64, n: usize) -> Outcome {
    let big = x0.abs().max(x1.abs());
    ensure!(r.n_steps == n && r.n_accepted == n, "{} steps, {} accepted instead of {n}", r.n_steps, r.n_accepted);
    ensure!(r.xs.len() == n + 1, "{} points recorded instead of {}", r.xs.len(), n + 1);
    let h = (x1 - x0) / n as f64;
    for (k, x) in r.xs.iter().enumerate() {
        let want = x0 + (x1 - x0) * k as f64 / n as f64;
        ensure!((x - want).abs() <= 2e-16 * big * (k + 2) as f64, "point {k} is {x:?} instead of {want:?}");
        ensure!(r.hs[k] == h || (r.hs[k] - h).abs() <= 4e-16 * h, "stepsize {k} is {:?} instead of {h:?}", r.hs[k]);
    }
    Ok(())
}

const INITIAL: [[f64; 8]; 3] = [
    [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
    [1.0, -0.5, 0.25, 1.5, -1.0, 0.75, 0.5, -0.25],
    [0.5, 0.5, -0.75, 1.0, 0.25, -0.5, 1.25, 0.75],
];

/// Exact for problems in the order class: every rooted tree gives one order condition
fn order_conditions(run: &mut Run) {
    let all: Vec<Arc<Tree>> = trees(8).into_iter().map(Arc::new).collect();
    assert_eq!(all.len(), 200);
    let steps = run.pick(vec![1, 2, 3, 7], vec![1, 2, 3, 4, 5, 7, 10, 16, 33]);
    run.section("order conditions", all.len() * ALL.len(), |ctx, item| {
        let (tree, method) = (&all[item / ALL.len()], ALL[item % ALL.len()]);
        let order = orders(method).0;
        if tree.len() > order {
            return;
        }
        for (explicit, n, initial, x0, modes) in itertools(&steps) {
            let analytical = modes == 1;
            if (!implicit(method) && modes != 1) || (method != Method::Radau5 && modes > 1) {
                continue;
            }
            ctx.case(format!("{method:?}/{tree:?}/explicit{explicit}/n{n}/start{initial}/x{x0}/jac{modes}"), |t| {
                let (h, m) = (0.5, tree.len());
                let mut start = INITIAL[initial][..m].to_vec();
                if explicit {
                    for i in 0..m {
                        if tree[i].is_empty() {
                            start[i] = x0;
                        }
                    }
                }
                let x1 = x0 + h * n as f64;
                let want = tree_solution(tree, &start, x1 - x0);
                let mut params = strict(method);
                params.newton.use_numerical_jacobian = modes == 0 || modes == 3;
                let system = if modes > 1 { tree_system_mass(tree.clone(), explicit) } else { tree_system(tree.clone(), explicit, analytical) };
                let r = integrate(params, system, &start, x0, x1, Some(h))?;
                t.ops(n);
                t.state_f64(r.y.as_data());
                check_steps(&r, x0, x1, n)?;
                let size = want.iter().fold(1.0_f64, |a, b| a.max(b.abs()));
                let tol = if implicit(method) { 1e-8 } else { 1e-12 };
                compare("solution", &r.y, &want, tol * size)
            });
        }
    });
}

fn itertools(steps: &[usize]) -> Vec<(bool, usize, usize, f64, usize)> {
    let mut all = vec![];
    for explicit in [false, true] {
        for n in steps {
            for initial in 0..INITIAL.len() {
                for x0 in [0.0, -1.0, 2.0] {
                    for modes in [0, 1, 2, 3] {
                        all.push((explicit, *n, initial, x0, modes));
                    }
                }
            }
        }
    }
    all
}

/// Euler's methods have closed forms on tree systems, step by step
fn euler(run: &mut Run) {
    let all: Vec<Arc<Tree>> = trees(6).into_iter().map(Arc::new).collect();
    run.section("Euler recursions", all.len(), |ctx, item| {
        let tree = &all[item];
        for forward in [true, false] {
            for n in [1, 2, 3, 5] {
                for (initial, x0, explicit, modified, numerical) in (0..INITIAL.len() * 16).map(|k| (k / 16, [0.0, 2.0][k % 2], k / 2 % 2 == 1, k / 4 % 2 == 1, k / 8 % 2 == 1)) {
                    if forward && (modified || numerical) {
                        continue;
                    }
                    ctx.case(format!("{tree:?}/forward{forward}/n{n}/start{initial}/x{x0}/explicit{explicit}/modified{modified}/numerical{numerical}"), |t| {
                        let (h, m) = (0.25, tree.len());
                        let start = &INITIAL[initial][..m];
                        let method = if forward { Method::FwEuler } else { Method::BwEuler };
                        let mut want = start.to_vec();
                        for k in 0..n {
                            let (old, x) = (want.clone(), x0 + h * (k + if forward { 0 } else { 1 }) as f64);
                            for i in (0..m).rev() {
                                let from = if forward { &old } else { &want };
                                let f: f64 = tree[i].iter().map(|c| if explicit && tree[*c].is_empty() { x } else { from[*c] }).product();
                                want[i] = old[i] + h * f;
                            }
                        }
                        let mut params = strict(method);
                        params.bweuler.use_modified_newton = modified;
                        params.newton.use_numerical_jacobian = numerical;
                        params.newton.n_iteration_max = 100;
                        let x1 = x0 + h * n as f64;
                        let r = integrate(params, tree_system(tree.clone(), explicit, !numerical), start, x0, x1, Some(h))?;
                        t.ops(n);
                        t.state_f64(r.y.as_data());
                        check_steps(&r, x0, x1, n)?;
                        compare("solution", &r.y, &want, 1e-9)
                    });
                }
            }
        }
    });
}

/// The number of steps is the one that covers the interval
fn counts(run: &mut Run) {
    let top = run.pick(200, 3000);
    let methods = [Method::FwEuler, Method::Rk4, Method::DoPri5, Method::BwEuler, Method::Radau5];
    let intervals: Vec<(f64, f64)> = vec![(0.0, 1.0), (0.0, 0.3), (-3.0, 7.0), (0.1, 0.7), (1e-3, 5e-3), (1e4, 1e4 + 3.0), (0.0, 1e-6), (0.0, 1e6), (-0.3, 0.0), (1.0 / 3.0, 8.0 / 3.0)];
    run.section("step counts", intervals.len() * methods.len(), |ctx, item| {
        let ((x0, x1), method) = (intervals[item / methods.len()], methods[item % methods.len()]);
        for n in 1..=top {
            if implicit(method) && n > run_top(ctx) / 3 {
                break;
            }
            ctx.case(format!("{method:?}/{x0}..{x1}/{n}"), |t| {
                let system = System::new(1, |f: &mut Vector, _, _: &Vector, _: &mut NoArgs| {
                    f[0] = 2.0;
                    Ok(())
                });
                let mut params = strict(method);
                params.newton.use_numerical_jacobian = true;
                let r = integrate(params, system, &[1.0], x0, x1, Some((x1 - x0) / n as f64))?;
                t.ops(n);
                t.state(&(item, n));
                check_steps(&r, x0, x1, n)?;
                compare("solution", &r.y, &[1.0 + 2.0 * (x1 - x0)], 1e-13 * n as f64)
            });
        }
    });
    // stepsizes written in decimal notation, dividing the interval or not
    let units = [0.1, 0.01, 0.05, 0.2, 0.3, 0.7, 1e-3];
    run.section("decimal stepsizes", units.len(), |ctx, item| {
        let h = units[item];
        for n in 1..=run_top(ctx) {
            for x0 in [0.0, 1.0, -0.5] {
                for part in [0.0, 0.25, 0.5, 0.75] {
                    ctx.case(format!("h{h}/n{n}/x{x0}/{part}"), |t| {
                        let x1 = ((x0 + h * (n as f64 + part)) * 1e7).round() / 1e7; // the nearest number to the decimal one
                        let want = if part > 0.0 { n + 1 } else { n };
                        let system = System::new(1, |f: &mut Vector, _, _: &Vector, _: &mut NoArgs| {
                            f[0] = 2.0;
                            Ok(())
                        });
                        let r = integrate(Params::new(Method::Rk2), system, &[1.0], x0, x1, Some(h))?;
                        t.ops(n);
                        t.state(&(item, n, want));
                        check_steps(&r, x0, x1, want)
                    });
                }
            }
        }
    });
    // without a stepsize, methods that cannot adapt take a fixed number of steps
    run.section("default steps", ALL.len(), |ctx, item| {
        let method = ALL[item];
        for (x0, x1) in &intervals {
            ctx.case(format!("{method:?}/{x0}..{x1}"), |t| {
                if orders(method).1 > 0 {
                    t.trivial();
                    return Ok(());
                }
                let system = System::new(1, |f: &mut Vector, _, _: &Vector, _: &mut NoArgs| {
                    f[0] = 2.0;
                    Ok(())
                });
                let mut params = Params::new(method);
                params.newton.use_numerical_jacobian = true;
                let r = integrate(params, system, &[1.0], *x0, *x1, None)?;
                t.op();
                check_steps(&r, *x0, *x1, 10)
            });
        }
    });
    // impossible requests
    let inf = f64::INFINITY;
    let bad = vec![
        (0.0, 1.0, Some(0.0)),
        (0.0, 1.0, Some(-0.1)),
        (0.0, 1.0, Some(f64::NAN)),
        (0.0, 0.0, Some(0.1)),
        (1.0, 0.0, Some(0.1)),
        (0.0, f64::NAN, Some(0.1)),
        (f64::NAN, 1.0, Some(0.1)),
        (0.0, inf, Some(0.1)),
        (-inf, 0.0, Some(0.1)),
        (0.0, f64::NAN, None),
        (f64::NAN, 1.0, None),
        (0.0, inf, None),
        (-inf, 0.0, None),
        (0.0, 0.0, None),
        (1.0, 0.0, None),
    ];
    run.section("impossible requests", ALL.len(), |ctx, item| {
        let method = ALL[item];
        for (x0, x1, h) in &bad {
            ctx.case(format!("{method:?}/{x0}..{x1}/{h:?}"), |t| {
                let system = System::new(1, |f: &mut Vector, _, _: &Vector, _: &mut NoArgs| {
                    f[0] = 2.0;
                    Ok(())
                });
                let mut params = Params::new(method);
                params.newton.use_numerical_jacobian = true;
                params.step.n_step_max = 50;
                t.op();
                match guarded(|| integrate(params, system, &[1.0], *x0, *x1, *h))? {
                    Err(_) => Ok(()),
                    Ok(r) => fail!("success with {} steps, solution {}", r.n_steps, r.y[0]),
                }
            });
        }
        // a single step when the stepsize is not smaller than the interval
        for (h, n) in [(1.0, 1), (1.5, 1), (1e300, 1), (inf, 1), (0.6, 2), (0.4, 3)] {
            ctx.case(format!("{method:?}/large{h}"), |t| {
                let system = System::new(1, |f: &mut Vector, _, _: &Vector, _: &mut NoArgs| {
                    f[0] = 2.0;
                    Ok(())
                });
                let mut params = Params::new(method);
                params.newton.use_numerical_jacobian = true;
                t.op();
                match guarded(|| integrate(params, system, &[1.0], 0.0, 1.0, Some(h)))? {
                    Err(e) => {
                        ensure!(h == inf, "{e}");
                        Ok(())
                    }
                    Ok(r) => {
                        check_steps(&r, 0.0, 1.0, n)?;
                        compare("solution", &r.y, &[3.0], 1e-12)
                    }
                }
            });
        }
    });
}

fn run_top(ctx: &Ctx) -> usize {
    if ctx.thorough() {
        1500
    } else {
        150
    }
}

/// Linear systems: the implicit methods are rational functions of h A
fn linear(run: &mut Run) {
    let values: Vec<f64> = run.pick(vec![-2.0, -1.0, 0.0, 1.0], vec![-4.0, -2.0, -1.0, 0.0, 0.5, 1.0, 2.0]);
    let nv = values.len();
    run.section("linear systems", pow(nv, 4), |ctx, item| {
        let a: Vec<f64> = digits(item, nv, 4).iter().map(|k| values[*k]).collect();
        let symmetric = a[1] == a[2];
        for method in [Method::Radau5, Method::BwEuler] {
            for (h, n) in [(0.25, 1), (0.25, 3), (0.1, 5)] {
                for config in 0..8 {
                    // storage declared general or symmetric; variants: plain, with a mass matrix, a modified or numerical iteration
                    let (storage, variant) = (config % 2, config / 2);
                    let sym = [Sym::No, Sym::YesFull][storage];
                    if (storage > 0 && !symmetric) || (method == Method::BwEuler && variant == 1) || (variant == 3 && storage > 0) {
                        continue;
                    }
                    // (2,1;1,3) for the mass matrix
                    let mass = [[2.0, 1.0], [1.0, 3.0]];
                    ctx.case(format!("{a:?}/{method:?}/h{h}/n{n}/storage{storage}/variant{variant}"), |t| {
                        let aa = a.clone();
                        let mut system = System::new(2, move |f: &mut Vector, x: f64, y: &Vector, _: &mut NoArgs| {
                            f[0] = aa[0] * y[0] + aa[1] * y[1] + x;
                            f[1] = aa[2] * y[0] + aa[3] * y[1] + 1.0;
                            Ok(())
                        });
                        let (aa, ab) = (a.clone(), a.clone());
                        let put = move |m: &mut CooMatrix, c: f64, v: [f64; 4]| -> Outcome {
                            for i in 0..2 {
                                for j in 0..2 {
                                    m.put(i, j, c * v[2 * i + j])?;
                                }
                            }
                            Ok(())
                        };
                        if variant < 3 {
                            let nnz = 4;
                            system
                                .set_jacobian(Some(nnz), sym, move |jj: &mut CooMatrix, m, _, _, _| {
                                    jj.reset();
                                    put(jj, m, [ab[0], ab[1], ab[2], ab[3]]).unwrap();
                                    Ok(())
                                })
                                .unwrap();
                            if variant == 1 {
                                system
                                    .set_mass(Some(nnz), sym, move |mm: &mut CooMatrix| {
                                        put(mm, 1.0, [mass[0][0], mass[0][1], mass[1][0], mass[1][1]]).unwrap();
                                    })
                                    .unwrap();
                            }
                        }
                        let mut params = strict(method);
                        params.newton.use_numerical_jacobian = variant == 3;
                        if variant == 2 {
                            params.bweuler.use_modified_newton = true;
                            params.radau5.zero_trial = true;
                            params.radau5.concurrent = true;
                        }
                        // effective matrix: inverse(M) A; effective source: inverse(M) (x, 1)
                        let m: Vec<Vec<f64>> = if variant == 1 { mass.iter().map(|r| r.to_vec()).collect() } else { vec![vec![1.0, 0.0], vec![0.0, 1.0]] };
                        let col = |j: usize| solve(&m, &[aa[j], aa[2 + j]]);
                        let (c0, c1) = (col(0), col(1));
                        let e = [[c0[0], c1[0]], [c0[1], c1[1]]];
                        let start = [1.0, -0.5];
                        // steps that are too large for growing solutions are left out
                        if (1.0 - h * e[0][0]) * (1.0 - h * e[1][1]) - h * h * e[0][1] * e[1][0] < 0.2 {
                            t.trivial();
                            return Ok(());
                        }
                        let mut want = start.to_vec();
                        for k in 0..n {
                            let x = h * k as f64;
                            if method == Method::BwEuler {
                                let lhs = vec![vec![1.0 - h * e[0][0], -h * e[0][1]], vec![-h * e[1][0], 1.0 - h * e[1][1]]];
                                let s = solve(&m, &[x + h, 1.0]);
                                want = solve(&lhs, &[want[0] + h * s[0], want[1] + h * s[1]]);
                            } else {
                                want = radau(&e, &want, h, |c| solve(&m, &[x + c * h, 1.0]));
                            }
                        }
                        let x1 = h * n as f64;
                        let r = integrate(params, system, &start, 0.0, x1, Some(h))?;
                        t.ops(n);
                        t.state_f64(r.y.as_data());
                        check_steps(&r, 0.0, x1, n)?;
                        compare("solution", &r.y, &want, 1e-8)
                    });
                }
            }
        }
    });
}

/// One step of the three-stage Radau IIA method for y' = E y + s(c), by solving the 6 by 6 system of the stages
fn radau(e: &[[f64; 2]; 2], y: &[f64], h: f64, s: impl Fn(f64) -> Vec<f64>) -> Vec<f64> {
    let (a, c) = tableau();
    // unknowns: stage values
    let mut lhs = vec![vec![0.0; 6]; 6];
    let mut rhs = vec![0.0; 6];
    for i in 0..3 {
        for p in 0..2 {
            lhs[2 * i + p][2 * i + p] += 1.0;
            rhs[2 * i + p] += y[p];
            for j in 0..3 {
                for q in 0..2 {
                    lhs[2 * i + p][2 * j + q] -= h * a[i][j] * e[p][q];
                }
                rhs[2 * i + p] += h * a[i][j] * s(c[j])[p];
            }
        }
    }
    let all = solve(&lhs, &rhs);
    vec![all[4], all[5]]
}

/// The error decreases at the method's order, on problems that are not in the order class
fn convergence(run: &mut Run) {
    // name, f, solution
    type F = fn(f64, &[f64]) -> Vec<f64>;
    type S = fn(f64) -> Vec<f64>;
    let problems: Vec<(&str, F, S)> = vec![
        ("exp", |_, y| vec![-y[0]], |x| vec![(-x).exp()]),
        ("logistic", |_, y| vec![y[0] * (1.0 - y[0])], |x| vec![1.0 / (1.0 + 3.0 * (-x).exp())]),
        ("rotation", |_, y| vec![y[1], -y[0]], |x| vec![x.sin(), x.cos()]),
        ("forced", |x, y| vec![-2.0 * x * y[0] + x.cos() + 2.0 * x * x.sin()], |x| vec![x.sin() + (-x * x).exp()]),
        ("riccati", |_, y| vec![-y[0] * y[0]], |x| vec![1.0 / (1.0 + x)]),
        ("pair", |x, y| vec![y[1] * x.cos(), y[0] * y[1] - x.sin() * y[1]], |x| vec![x.sin(), 1.0]),
    ];
    run.section("convergence", ALL.len() * problems.len(), |ctx, item| {
        let (method, (name, f, s)) = (ALL[item / problems.len()], problems[item % problems.len()]);
        let order = orders(method).0 as i32;
        for x1 in [1.0, 2.0] {
            ctx.case(format!("{method:?}/{name}/{x1}"), |t| {
                let mut errors: Vec<f64> = vec![];
                let ns = [8, 16, 32, 64, 128];
                for n in ns {
                    let start = s(0.0);
                    let system = System::new(start.len(), move |ff: &mut Vector, x: f64, y: &Vector, _: &mut NoArgs| {
                        for (i, v) in f(x, y.as_data()).iter().enumerate() {
                            ff[i] = *v;
                        }
                        Ok(())
                    });
                    let mut params = strict(method);
                    params.newton.use_numerical_jacobian = true;
                    let r = integrate(params, system, &start, 0.0, x1, Some(x1 / n as f64))?;
                    t.ops(n);
                    t.state_f64(r.y.as_data());
                    let want = s(x1);
                    errors.push((0..want.len()).fold(0.0, |a: f64, i| a.max((r.y[i] - want[i]).abs())));
                }
                // the error of the finest grid against a coarser one
                let floor = if implicit(method) { 1e-8 } else { 1e-13 };
                for k in 1..ns.len() - 2 {
                    let want = errors[k] / 4.0_f64.powi(order) * 6.0 + floor;
                    ensure!(errors[k + 2] <= want, "errors {errors:?} do not decrease with order {order}");
                }
                ensure!(errors[0] < 0.5, "errors {errors:?} are large");
                Ok(())
            });
        }
    });
}

/// Steps whose iterations do not converge are not accepted
fn diverging(run: &mut Run) {
    type F = fn(f64, &[f64]) -> Vec<f64>;
    let problems: Vec<(&str, F, Vec<f64>)> = vec![
        ("quadratic", |_, y| vec![-10.0 * y[0] * y[0]], vec![1.0]),
        ("cubic", |x, y| vec![-y[0] * y[0] * y[0] + x], vec![3.0]),
        ("growing", |_, y| vec![y[0] * y[0]], vec![0.5]),
        ("exponential", |_, y| vec![(-3.0 * y[0]).exp()], vec![-1.0]),
        ("van der pol", |_, y| vec![y[1], 20.0 * (1.0 - y[0] * y[0]) * y[1] - y[0]], vec![2.0, -0.6]),
        ("tanh", |x, y| vec![20.0 * (x - 3.0 * y[0]).tanh()], vec![0.9]),
        ("root", |_, y| vec![-(y[0].abs() + 0.01).sqrt()], vec![1.0]),
    ];
    run.section("iterations that do not converge", problems.len(), |ctx, item| {
        let (name, f, start) = &problems[item];
        let f = *f;
        for method in [Method::Radau5, Method::BwEuler] {
            for h in [0.01, 0.05, 0.1, 0.25, 0.5, 1.0, 2.0, 4.0] {
                for limit in 1..=12 {
                    for n in [1, 2, 4] {
                        for zero in [false, true] {
                            ctx.case(format!("{name}/{method:?}/h{h}/limit{limit}/n{n}/{zero}"), |t| {
                                let mut solve = |limit: usize, modified: bool, tight: bool| {
                                    let system = System::new(start.len(), move |ff: &mut Vector, x: f64, y: &Vector, _: &mut NoArgs| {
                                        for (i, v) in f(x, y.as_data()).iter().enumerate() {
                                            ff[i] = *v;
                                        }
                                        Ok(())
                                    });
                                    let mut params = if tight { strict(method) } else { Params::new(method) };
                                    params.newton.use_numerical_jacobian = true;
                                    params.newton.n_iteration_max = limit;
                                    params.bweuler.use_modified_newton = modified;
                                    params.radau5.zero_trial = modified;
                                    integrate(params, system, start, 0.0, h * n as f64, Some(h))
                                };
                                t.op();
                                let got = match guarded(|| solve(limit, zero, false))? {
                                    Err(_) => return Ok(()),
                                    Ok(r) => r,
                                };
                                t.state_f64(got.y.as_data());
                                check_steps(&got, 0.0, h * n as f64, n)?;
                                // several solutions of the step equations may exist; every accepted one satisfies them
                                match solve(100, false, true) {
                                    Ok(want) => compare("solution", &got.y, want.y.as_data(), 1e-3),
                                    Err(_) => Ok(()),
                                }
                            });
                        }
                    }
                }
            }
        }
    });
}

/// Systems at rest during the first steps: nothing to iterate on at the beginning
fn at_rest(run: &mut Run) {
    run.section("at rest first", 6, |ctx, item| {
        let begin = item as f64 * 0.1 - 0.05;
        for n in 1..=20 {
            for config in 0..8 {
                let (method, modified, numerical) = ([Method::BwEuler, Method::Radau5][config / 4], config / 2 % 2 == 1, config % 2 == 1);
                ctx.case(format!("{method:?}/begin{begin}/n{n}/modified{modified}/numerical{numerical}"), |t| {
                    let g = move |x: f64| if x > begin { x - begin } else { 0.0 };
                    let mut system = System::new(1, move |f: &mut Vector, x: f64, y: &Vector, _: &mut NoArgs| {
                        f[0] = g(x) * (1.0 - y[0]);
                        Ok(())
                    });
                    system
                        .set_jacobian(Some(1), Sym::No, move |jj: &mut CooMatrix, m, x, _, _| {
                            jj.reset();
                            jj.put(0, 0, -m * g(x))?;
                            Ok(())
                        })
                        .unwrap();
                    let mut params = strict(method);
                    params.bweuler.use_modified_newton = modified;
                    params.radau5.zero_trial = modified;
                    params.newton.use_numerical_jacobian = numerical;
                    params.newton.n_iteration_max = 100;
                    let h = 1.0 / n as f64;
                    let mut want = 3.0;
                    for k in 0..n {
                        let x = h * k as f64;
                        if method == Method::BwEuler {
                            want = (want + h * g(x + h)) / (1.0 + h * g(x + h));
                        } else {
                            want = radau_scalar(want, h, |c| g(x + c * h));
                        }
                    }
                    let r = integrate(params, system, &[3.0], 0.0, 1.0, Some(h))?;
                    t.ops(n);
                    t.state_f64(r.y.as_data());
                    check_steps(&r, 0.0, 1.0, n)?;
                    compare("solution", &r.y, &[want], 1e-8)
                });
            }
        }
    });
}

/// One step of the three-stage Radau IIA method for y' = g (1 - y)
fn radau_scalar(y: f64, h: f64, g: impl Fn(f64) -> f64) -> f64 {
    let (a, c) = tableau();
    let mut lhs = vec![vec![0.0; 3]; 3];
    let mut rhs = vec![y; 3];
    for i in 0..3 {
        lhs[i][i] += 1.0;
        for j in 0..3 {
            lhs[i][j] += h * a[i][j] * g(c[j]);
            rhs[i] += h * a[i][j] * g(c[j]);
        }
    }
    solve(&lhs, &rhs)[2]
}

fn tableau() -> ([[f64; 3]; 3], [f64; 3]) {
    let q = 6.0_f64.sqrt();
    (
        [
            [(88.0 - 7.0 * q) / 360.0, (296.0 - 169.0 * q) / 1800.0, (-2.0 + 3.0 * q) / 225.0],
            [(296.0 + 169.0 * q) / 1800.0, (88.0 + 7.0 * q) / 360.0, (-2.0 - 3.0 * q) / 225.0],
            [(16.0 - q) / 36.0, (16.0 + q) / 36.0, 1.0 / 9.0],
        ],
        [(4.0 - q) / 10.0, (4.0 + q) / 10.0, 1.0],
    )
}

/// Copies of a problem side by side take the same fixed steps as the problem alone
fn copies(run: &mut Run) {
    let all = crate::problems::problems();
    run.section("copies", all.len() * ALL.len(), |ctx, item| {
        let (p, method) = (all[item / ALL.len()], ALL[item % ALL.len()]);
        if p.mass.is_some() && method != Method::Radau5 {
            return;
        }
        for c in [2, 3, 5, 8, 13, 16, 33, 50] {
            for analytical in [true, false] {
                if !analytical && (!implicit(method) || c > 16) {
                    continue;
                }
                for steps in [1, 5] {
                    ctx.case(format!("{}/{method:?}/{c} copies/analytical={analytical}/{steps} steps", p.name), |t| {
                        let mut params = strict(method);
                        params.newton.use_numerical_jacobian = !analytical;
                        let h = (p.x1 - p.x0) / steps as f64;
                        let start = p.start();
                        let alone = guarded(|| integrate(params, p.system(analytical), &start, p.x0, p.x1, Some(h)))?;
                        let wide: Vec<f64> = (0..start.len() * c).map(|i| start[i / c]).collect();
                        let several = guarded(|| integrate(params, p.copies(c, analytical), &wide, p.x0, p.x1, Some(h)))?;
                        t.ops(2 * steps);
                        match (alone, several) {
                            (Ok(a), Ok(b)) => {
                                let tol = if implicit(method) { 1e-7 } else { 1e-12 };
                                for i in 0..wide.len() {
                                    let (x, y) = (b.y[i], a.y[i / c]);
                                    ensure!(x == y || (x - y).abs() <= tol * y.abs().max(1.0), "copy {}: component {} is {x} instead of {y}", i % c, i / c);
                                }
                                t.state_f64(b.y.as_data());
                                Ok(())
                            }
                            (Err(_), Err(_)) => Ok(()),
                            (a, b) => fail!("alone: {:?}, several: {:?}", a.err(), b.err()),
                        }
                    });
                }
            }
        }
    });
}

pub fn run(run: &mut Run) {
    run.level(
        "exploration",
        "every rooted tree up to order eight, every step count, every small linear system: real solver against polynomials and independently solved stages",
    );
    run.assume("tolerances of the implicit iterations are set tight; results are compared to 1e-8 there and 1e-12 for explicit methods");
    order_conditions(run);
    euler(run);
    counts(run);
    linear(run);
    convergence(run);
    diverging(run);
    at_rest(run);
    copies(run);
}
