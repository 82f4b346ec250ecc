//! O02: adaptive integration

use crate::model::*;
use crate::problems::*;
use mc::*;
use russell_lab::{StrError, Vector};
use russell_ode::{Method, NoArgs, OdeSolver, Output, Params, System};
use russell_sparse::{CooMatrix, Sym};
use std::sync::Arc;

pub const EMBEDDED: [Method; 9] = [
    Method::MdEuler,
    Method::Merson4,
    Method::Zonneveld4,
    Method::Fehlberg4,
    Method::DoPri5,
    Method::Verner6,
    Method::Fehlberg7,
    Method::DoPri8,
    Method::Radau5,
];

struct Done {
    y: Vector,
    xs: Vec<f64>,
    hs: Vec<f64>,
    ys: Vec<Vec<f64>>,
    n_steps: usize,
    n_accepted: usize,
    n_rejected: usize,
}

fn adapt<'a>(params: Params, system: System<'a, NoArgs>, start: &[f64], x0: f64, x1: f64) -> Result<Done, StrError> {
    let mut solver = OdeSolver::new(params, system)?;
    let mut out = Output::new();
    let all: Vec<usize> = (0..start.len()).collect();
    out.set_step_recording(&all);
    let mut y = Vector::from(&start.to_vec());
    solver.solve(&mut y, x0, x1, None, &mut 0, Some(&mut out))?;
    Ok(Done {
        y,
        xs: out.step_x().clone(),
        hs: out.step_h().clone(),
        ys: all.iter().map(|m| out.step_y(*m).clone()).collect(),
        n_steps: solver.stats().n_steps,
        n_accepted: solver.stats().n_accepted,
        n_rejected: solver.stats().n_rejected,
    })
}

/// The recorded path is a proper path from x0 to x1
fn check_path(d: &Done, params: &Params, start: &[f64], x0: f64, x1: f64) -> Outcome {
    let n = d.xs.len();
    let ulp = 2.3e-16 * x0.abs().max(x1.abs());
    ensure!(n >= 2, "{n} points recorded");
    ensure!(d.xs[0] == x0, "starts at {:?}", d.xs[0]);
    ensure!((d.xs[n - 1] - x1).abs() <= 10.0 * 2.3e-16 * x1.abs().min(1.0) + ulp, "ends at {:?} instead of {x1:?}", d.xs[n - 1]);
    ensure!(d.n_accepted == n - 1, "{} accepted steps but {} recorded", d.n_accepted, n - 1);
    ensure!(d.n_steps >= d.n_accepted + d.n_rejected, "{} steps, {} accepted, {} rejected", d.n_steps, d.n_accepted, d.n_rejected);
    for k in 1..n {
        ensure!(d.xs[k] > d.xs[k - 1], "step {k} does not advance: {:?} after {:?}", d.xs[k], d.xs[k - 1]);
        let dx = d.xs[k] - d.xs[k - 1];
        ensure!((dx - d.hs[k]).abs() <= 2.0 * ulp, "step {k} advances by {dx:?} with stepsize {:?}", d.hs[k]);
        let top = if k == 1 { params.step.h_ini } else { d.hs[k - 1] * params.step.m_max };
        ensure!(d.hs[k] <= top * (1.0 + 1e-12), "stepsize {k} is {:?}, larger than {top:?}", d.hs[k]);
    }
    for m in 0..start.len() {
        ensure!(d.ys[m][0] == start[m], "component {m} starts at {:?}", d.ys[m][0]);
        ensure!(d.ys[m][n - 1] == d.y[m], "component {m}: recorded {:?} but {:?} returned", d.ys[m][n - 1], d.y[m]);
    }
    Ok(())
}

/// Largest admitted ratio between the error and the tolerance: a few times the largest one seen.
/// Merson's and Fehlberg's methods control an estimate of lower order; Radau5 works with 0.1 tol^(2/3) internally
fn allowed(method: Method, config: usize, tol: f64) -> f64 {
    let r = match method {
        Method::MdEuler => 40.0,
        Method::Merson4 | Method::Fehlberg4 => 60.0 * f64::max(1.0, 1e-3 / tol).powf(0.2),
        Method::Zonneveld4 => 40.0,
        Method::DoPri5 => 60.0,
        Method::Verner6 => 200.0,
        Method::Fehlberg7 => 100.0,
        Method::DoPri8 => 40.0,
        _ => 20.0 + tol.powf(2.0 / 3.0) / tol,
    };
    if large_first_step(config) {
        10.0 * r
    } else {
        r
    }
}

fn large_first_step(config: usize) -> bool {
    matches!(config, 2 | 3 | 9)
}

fn configure(method: Method, config: usize, tol: f64) -> Params {
    let mut params = Params::new(method);
    params.set_tolerances(tol, tol, None).unwrap();
    params.step.n_step_max = 400_000;
    match config {
        0 => (),
        1 => params.step.h_ini = 1e-8,
        2 => params.step.h_ini = 0.5,
        3 => params.step.h_ini = 1e3,
        4 => {
            params.step.m_max = 1.5;
            params.step.m_min = 0.4;
        }
        5 => {
            params.step.m_max = 20.0;
            params.step.m_min = 0.001;
        }
        6 => params.step.m_safety = 0.5,
        7 => {
            params.erk.lund_beta = 0.08;
            params.radau5.use_pred_control = false;
        }
        8 => {
            params.erk.lund_beta = 0.0;
            params.radau5.zero_trial = true;
        }
        9 => {
            params.step.m_first_reject = 0.0;
            params.step.h_ini = 10.0;
        }
        10 => params.newton.use_numerical_jacobian = true,
        11 => params.radau5.concurrent = !params.radau5.concurrent,
        12 => params.radau5.theta_max = 0.5,
        13 => {
            params.radau5.c1h = 0.999;
            params.radau5.c2h = 1.0;
        }
        14 => {
            params.stiffness.enabled = true;
            params.stiffness.stop_with_error = false;
            params.stiffness.save_results = true;
        }
        15 => params.newton.n_iteration_max = 4,
        _ => panic!("configuration"),
    }
    params
}

fn applies(method: Method, config: usize) -> bool {
    match config {
        10..=13 | 15 => method == Method::Radau5,
        14 => matches!(method, Method::DoPri5 | Method::DoPri8),
        _ => true,
    }
}

/// The error is commensurate with the tolerance, whatever the options
fn accuracy(run: &mut Run) {
    let all = problems();
    let tolerances = run.pick(vec![1e-3, 1e-5, 1e-7, 1e-9], vec![1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 1e-8, 1e-9, 1e-10, 1e-11]);
    run.section("accuracy", all.len() * EMBEDDED.len() * 16, |ctx, item| {
        let (p, method, config) = (&all[item / 16 / EMBEDDED.len()], EMBEDDED[item / 16 % EMBEDDED.len()], item % 16);
        if !applies(method, config) || (p.mass.is_some() && method != Method::Radau5) {
            return;
        }
        // the estimator of Fehlberg's method of order seven vanishes for pure quadratures
        if method == Method::Fehlberg7 && p.name == "pulse" {
            return;
        }
        // the estimates hold for small steps only: the first step spans the interval here
        if large_first_step(config) && p.stiff {
            return;
        }
        for tol in &tolerances {
            if (method == Method::MdEuler && *tol < 1e-8) || (large_first_step(config) && *tol > 1e-3) {
                continue;
            }
            ctx.case(format!("{}/{method:?}/config{config}/{tol:e}", p.name), |t| {
                let params = configure(method, config, *tol);
                let analytical = true;
                let d = match guarded(|| adapt(params, p.system(analytical), &p.start(), p.x0, p.x1))? {
                    Ok(d) => d,
                    // its estimator misses the growth of stiff components: the run is refused in the end
                    Err(_) if method == Method::Fehlberg7 && p.stiff => return Ok(()),
                    Err(e) => fail!("{e}"),
                };
                t.ops(d.n_steps);
                t.state_f64(d.y.as_data());
                check_path(&d, &params, &p.start(), p.x0, p.x1)?;
                let mut worst = 0.0_f64;
                for k in 0..d.xs.len() {
                    let want = (p.sol)(d.xs[k]);
                    for m in 0..want.len() {
                        worst = worst.max((d.ys[m][k] - want[m]).abs() / (tol * (1.0 + want[m].abs())));
                    }
                }
                if std::env::var("VERIF_CAL").is_ok() {
                    println!("CAL {} {method:?} {config} {tol:e} {worst:.2}", p.name);
                }
                let top = allowed(method, config, *tol) + 1e-13 * (d.n_steps as f64) / tol;
                ensure!(worst <= top, "error is {worst:.1} times the tolerance");
                Ok(())
            });
        }
    });
}

/// Copies of a problem side by side: the accuracy does not depend on the dimension
fn copies(run: &mut Run) {
    let all = problems();
    run.section("copies", all.len() * EMBEDDED.len(), |ctx, item| {
        let (p, method) = (all[item / EMBEDDED.len()], EMBEDDED[item % EMBEDDED.len()]);
        if (p.mass.is_some() && method != Method::Radau5) || (method == Method::Fehlberg7 && (p.name == "pulse" || p.stiff)) {
            return;
        }
        for c in [2, 3, 5, 8, 13, 16, 33, 50] {
            for config in [0, 10, 11] {
                if !applies(method, config) || (config == 10 && c > 16) {
                    continue;
                }
                for tol in [1e-4, 1e-6] {
                    if c > 20 && p.stiff && method != Method::Radau5 {
                        continue; // many steps
                    }
                    ctx.case(format!("{}/{method:?}/{c} copies/config{config}/{tol:e}", p.name), |t| {
                        let params = configure(method, config, tol);
                        let start: Vec<f64> = (0..p.dim() * c).map(|i| p.start()[i / c]).collect();
                        let d = guarded(|| adapt(params, p.copies(c, true), &start, p.x0, p.x1))??;
                        t.ops(d.n_steps);
                        t.state_f64(d.y.as_data());
                        check_path(&d, &params, &start, p.x0, p.x1)?;
                        let top = allowed(method, config, tol) + 1e-13 * (d.n_steps as f64) / tol;
                        for k in 0..d.xs.len() {
                            let want = (p.sol)(d.xs[k]);
                            for i in 0..start.len() {
                                let ratio = (d.ys[i][k] - want[i / c]).abs() / (tol * (1.0 + want[i / c].abs()));
                                ensure!(ratio <= top, "copy {}: the error is {ratio:.1} times the tolerance", i % c);
                            }
                        }
                        Ok(())
                    });
                }
            }
        }
    });
}

/// The error estimate vanishes exactly for the trees the lower-order formula integrates
fn estimators(run: &mut Run) {
    let all: Vec<Arc<Tree>> = trees(8).into_iter().map(Arc::new).collect();
    let methods: Vec<Method> = EMBEDDED.iter().copied().filter(|m| *m != Method::Radau5).collect();
    run.section("error estimates", methods.len(), |ctx, item| {
        let method = methods[item];
        let order = orders(method).1;
        let mut noticed = 0;
        let mut last = 0;
        for (index, tree) in all.iter().enumerate() {
            if tree.len() > order + 1 {
                continue;
            }
            for explicit in [false, true] {
                ctx.case(format!("{method:?}/{tree:?}/explicit{explicit}"), |t| {
                    let (h, x0) = (0.5, 0.5);
                    let mut params = Params::new(method);
                    // formulas that differ need small steps
                    let (tol, x1) = if tree.len() <= order { (1e-11, x0 + 20.0 * h) } else if order < 3 { (1e-8, x0 + h) } else { (1e-11, x0 + h) };
                    params.set_tolerances(tol, tol, None)?;
                    params.step.h_ini = h;
                    let mut start = vec![0.75, -0.5, 1.0, 1.25, -1.0, 0.5, -0.75, 0.25][..tree.len()].to_vec();
                    if explicit {
                        for i in 0..tree.len() {
                            if tree[i].is_empty() {
                                start[i] = x0;
                            }
                        }
                    }
                    let d = adapt(params, tree_system(tree.clone(), explicit, false), &start, x0, x1)?;
                    t.ops(d.n_steps);
                    t.state(&(item, index, explicit));
                    check_path(&d, &params, &start, x0, x1)?;
                    if tree.len() <= order {
                        ensure!(d.hs[1] == h, "first step is {:?} although the formulas agree", d.hs[1]);
                        ensure!(d.hs[2] >= 2.0 * h, "second step is {:?} although the formulas agree", d.hs[2]);
                    } else if !explicit {
                        last += 1;
                        noticed += (d.hs[1] < h) as usize;
                    }
                    Ok(())
                });
            }
        }
        // a good part of the trees of the next order is noticed
        ctx.case(format!("{method:?}/noticed"), |t| {
            t.op();
            ensure!(4 * noticed >= last, "only {noticed} of {last} trees of order {} are noticed", order + 1);
            Ok(())
        });
    });
}

/// The limit on the number of steps is respected, with every kind of output
fn limits(run: &mut Run) {
    let all = problems();
    run.section("step limit", all.len() * EMBEDDED.len(), |ctx, item| {
        let (p, method) = (&all[item / EMBEDDED.len()], EMBEDDED[item % EMBEDDED.len()]);
        if (p.mass.is_some() && method != Method::Radau5) || (p.stiff && method != Method::Radau5) {
            return;
        }
        let mut params = Params::new(method);
        params.set_tolerances(1e-4, 1e-4, None).unwrap();
        let full = match adapt(params, p.system(true), &p.start(), p.x0, p.x1) {
            Ok(d) => d.n_steps,
            Err(_) => return,
        };
        let dense = matches!(method, Method::DoPri5 | Method::DoPri8 | Method::Radau5);
        for limit in 1..=full + 3 {
            for output in 0..4 {
                if output == 2 && !dense {
                    continue;
                }
                ctx.case(format!("{}/{method:?}/limit{limit}/output{output}", p.name), |t| {
                    params.step.n_step_max = limit;
                    let r = guarded(|| -> Result<(f64, usize), StrError> {
                        let mut solver = OdeSolver::new(params, p.system(true))?;
                        let mut out = Output::new();
                        match output {
                            1 => {
                                out.set_step_recording(&[0]);
                            }
                            2 => {
                                out.set_dense_h_out((p.x1 - p.x0) / 7.0)?.set_dense_recording(&[0]);
                            }
                            3 => {
                                out.set_step_callback(|_, _, _, _, _| Ok(false));
                            }
                            _ => (),
                        }
                        let mut y = Vector::from(&p.start());
                        solver.solve(&mut y, p.x0, p.x1, None, &mut 0, if output > 0 { Some(&mut out) } else { None })?;
                        Ok((y[0], solver.stats().n_steps))
                    })?;
                    t.ops(limit.min(full));
                    match r {
                        Ok((y, n)) => {
                            ensure!(limit >= full && n == full, "success after {n} of {full} steps with the limit {limit}: {y}");
                            Ok(())
                        }
                        // the last pass of the loop notices the end
                        Err(e) => {
                            ensure!(limit <= full, "{e} with the limit {limit} although {full} steps suffice");
                            Ok(())
                        }
                    }
                });
            }
        }
    });
}

#[derive(Clone, Copy)]
struct Spoil {
    at: usize,
    many: bool,
    component: usize,
    value: f64,
}

/// Functions that return non-finite values: an error, or a result that does not suffer from them
fn non_finite(run: &mut Run) {
    let all = problems();
    let values = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY];
    let top = run.pick(500, 100_000);
    run.section("non-finite values", 2 * all.len() * EMBEDDED.len(), |ctx, item| {
        let (p, method, large) = (all[item / 2 / EMBEDDED.len()], EMBEDDED[item / 2 % EMBEDDED.len()], item % 2 == 1);
        if (p.mass.is_some() && method != Method::Radau5) || (p.stiff && method != Method::Radau5) {
            return;
        }
        if (method == Method::Fehlberg7 && p.name == "pulse") || (large && (p.stiff || p.name == "algebraic")) {
            return;
        }
        let n = p.dim();
        let tol = 1e-5;
        let attempt = |spoil: Option<Spoil>| -> Result<(Vector, usize), String> {
            let mut params = Params::new(method);
            params.set_tolerances(tol, tol, None)?;
            params.step.n_step_max = 400;
            params.radau5.concurrent = false;
            if large {
                params.step.h_ini = p.x1 - p.x0;
            }
            params.newton.use_numerical_jacobian = true;
            let mut system = System::new(n, move |f: &mut Vector, x: f64, y: &Vector, calls: &mut usize| {
                for (i, v) in (p.f)(x, y.as_data()).iter().enumerate() {
                    f[i] = *v;
                }
                if let Some(s) = spoil {
                    if *calls == s.at || (s.many && *calls > s.at) {
                        f[s.component] = s.value;
                    }
                }
                *calls += 1;
                Ok(())
            });
            p.put_mass(&mut system);
            let mut solver = OdeSolver::new(params, system)?;
            let mut y = Vector::from(&p.start());
            let mut calls = 0;
            guarded(|| solver.solve(&mut y, p.x0, p.x1, None, &mut calls, None))??;
            Ok((y, calls))
        };
        let calls = match attempt(None) {
            Ok(r) => r.1,
            Err(_) => return,
        };
        for at in 0..calls.min(top) {
            for value in values {
                for many in [false, true] {
                    for component in 0..n {
                        if component > 0 && (component < n - 1 || at % 3 != 0) {
                            continue;
                        }
                        ctx.case(format!("{}/{method:?}/large{large}/call{at}/{value}/many{many}/component{component}", p.name), |t| {
                            t.op();
                            let (y, done) = match attempt(Some(Spoil { at, many, component, value })) {
                                Ok(r) => r,
                                Err(e) => {
                                    ensure!(!e.starts_with("panic"), "{e}");
                                    return Ok(());
                                }
                            };
                            t.state_f64(y.as_data());
                            let want = (p.sol)(p.x1);
                            // the function is evaluated once more at the end point
                            ensure!(!many || done <= at + 1, "success although the function is not finite from call {at} on: {:?} instead of {want:?}", y.as_data());
                            let top = allowed(method, if large { 3 } else { 0 }, tol) * tol;
                            for m in 0..n {
                                ensure!((y[m] - want[m]).abs() <= top * (1.0 + want[m].abs()), "success with component {m} = {} instead of {}", y[m], want[m]);
                            }
                            Ok(())
                        });
                    }
                }
            }
        }
    });
}

/// Solutions that cease to exist before the end are never reported as found
fn singular(run: &mut Run) {
    let cases: Vec<(&str, F, Vec<f64>, f64)> = vec![
        ("explosion", |_, y| vec![y[0] * y[0]], vec![1.0], 2.0),
        ("explosion later", |_, y| vec![y[0] * y[0]], vec![0.01], 150.0),
        ("cubic explosion", |_, y| vec![y[0] * y[0] * y[0]], vec![1.0], 1.0),
        ("root", |_, y| vec![-y[0].sqrt() - 1.0], vec![1.0], 3.0),
        ("logarithm", |_, y| vec![-1.0 + 0.0 * y[0].ln()], vec![1.0], 2.0),
        ("exponential", |_, y| vec![y[0].exp()], vec![0.0], 2.0),
        ("pair", |_, y| vec![y[1], y[0] * y[1]], vec![1.0, 2.0], 10.0),
        ("not a number from the start", |_, y| vec![f64::NAN * y[0]], vec![1.0], 1.0),
        ("not a number in the start", |_, y| vec![-y[0]], vec![f64::NAN], 1.0),
        ("infinite start", |_, y| vec![-y[0]], vec![f64::INFINITY], 1.0),
    ];
    run.section("solutions that cease to exist", cases.len() * ALL.len(), |ctx, item| {
        let ((name, f, start, x1), method) = (&cases[item / ALL.len()], ALL[item % ALL.len()]);
        let f = *f;
        for tol in [1e-2, 1e-4, 1e-6, 1e-8] {
            for equal in [None, Some(0.1), Some(0.01)] {
                // equal steps may pass over a pole
                if (equal.is_some() || orders(method).1 == 0) && !(name.starts_with("not") || name.starts_with("inf") || name.starts_with("log")) {
                    continue;
                }
                for h_ini in [1e-4, 1e-2] {
                    ctx.case(format!("{name}/{method:?}/{tol:e}/{equal:?}/{h_ini}"), |t| {
                        let system = System::new(start.len(), move |ff: &mut Vector, x: f64, y: &Vector, _: &mut NoArgs| {
                            for (i, v) in f(x, y.as_data()).iter().enumerate() {
                                ff[i] = *v;
                            }
                            Ok(())
                        });
                        let mut params = Params::new(method);
                        params.set_tolerances(tol, tol, None)?;
                        params.step.n_step_max = 20_000;
                        params.step.h_ini = h_ini;
                        params.newton.use_numerical_jacobian = true;
                        let mut solver = OdeSolver::new(params, system)?;
                        let mut y = Vector::from(start);
                        t.op();
                        match guarded(|| solver.solve(&mut y, 0.0, *x1, equal, &mut 0, None))? {
                            Ok(()) => fail!("success with {:?}", y.as_data()),
                            Err(_) => Ok(()),
                        }
                    });
                }
            }
        }
    });
}

/// Equations that do not determine the solution are never reported as solved
fn undetermined(run: &mut Run) {
    run.section("undetermined", 3, |ctx, item| {
        let n = item + 1;
        for open in 1..1usize << n {
            for mode in 0..16 {
                let (numerical, concurrent, equal, negative) = (mode & 1 == 1, mode & 2 == 2, mode & 4 == 4, mode & 8 == 8);
                ctx.case(format!("dae{n}/{open:b}/numerical={numerical}/concurrent={concurrent}/equal={equal}/{negative}"), |t| {
                    // 0 = 0 or 0 = 1 instead of the equation of the open components
                    let is_open = move |i: usize| open >> i & 1 == 1;
                    let mut system = System::new(n, move |f: &mut Vector, _: f64, y: &Vector, _: &mut NoArgs| {
                        for i in 0..n {
                            f[i] = if is_open(i) { if negative { 1.0 } else { 0.0 } } else { -y[i] };
                        }
                        Ok(())
                    });
                    if !numerical {
                        system.set_jacobian(Some(n), Sym::No, move |jj: &mut CooMatrix, m: f64, _: f64, _: &Vector, _: &mut NoArgs| {
                            jj.reset();
                            for i in 0..n {
                                jj.put(i, i, if is_open(i) { 0.0 } else { -m })?;
                            }
                            Ok(())
                        })?;
                    }
                    system.set_mass(Some(n), Sym::No, move |mm: &mut CooMatrix| {
                        for i in 0..n {
                            mm.put(i, i, if is_open(i) { 0.0 } else { 1.0 }).unwrap();
                        }
                    })?;
                    let mut params = Params::new(Method::Radau5);
                    params.newton.use_numerical_jacobian = numerical;
                    params.radau5.concurrent = concurrent;
                    let mut solver = OdeSolver::new(params, system)?;
                    let mut y = Vector::initialized(n, |i| 1.0 + i as f64);
                    t.op();
                    match guarded(|| solver.solve(&mut y, 0.0, 1.0, if equal { Some(0.25) } else { None }, &mut 0, None))? {
                        Ok(()) => fail!("success with {:?}", y.as_data()),
                        Err(_) => Ok(()),
                    }
                });
            }
            // backward Euler with the step at which the next value is not determined: y (1 - h k) = y0 with h k = 1
            for (k, modified) in (0..8).map(|q| (f64::powi(2.0, q / 2 - 1), q % 2 == 1)) {
                ctx.case(format!("euler{n}/{open:b}/{k}/{modified}"), |t| {
                    let rate = move |i: usize| if open >> i & 1 == 1 { k } else { -1.0 };
                    let mut system = System::new(n, move |f: &mut Vector, _: f64, y: &Vector, _: &mut NoArgs| {
                        for i in 0..n {
                            f[i] = rate(i) * y[i];
                        }
                        Ok(())
                    });
                    system.set_jacobian(Some(n), Sym::No, move |jj: &mut CooMatrix, m: f64, _: f64, _: &Vector, _: &mut NoArgs| {
                        jj.reset();
                        for i in 0..n {
                            jj.put(i, i, m * rate(i))?;
                        }
                        Ok(())
                    })?;
                    let mut params = Params::new(Method::BwEuler);
                    params.bweuler.use_modified_newton = modified;
                    let mut solver = OdeSolver::new(params, system)?;
                    let mut y = Vector::initialized(n, |i| 1.0 + i as f64);
                    t.op();
                    match guarded(|| solver.solve(&mut y, 0.0, 2.0 / k, Some(1.0 / k), &mut 0, None))? {
                        Ok(()) => fail!("success with {:?}", y.as_data()),
                        Err(_) => Ok(()),
                    }
                });
            }
        }
    });
}

/// The units of the independent variable do not matter
fn scales(run: &mut Run) {
    let all: Vec<Problem> = problems().into_iter().filter(|p| !p.stiff).collect();
    let units = [1e-18, 1e-15, 1e-14, 1e-13, 1e-12, 1e-9, 1e-6, 1e-3, 1e3, 1e6, 1e9];
    run.section("units", all.len() * EMBEDDED.len(), |ctx, item| {
        let (p, method) = (all[item / EMBEDDED.len()], EMBEDDED[item % EMBEDDED.len()]);
        if (p.mass.is_some() && method != Method::Radau5) || (method == Method::Fehlberg7 && p.name == "pulse") || p.name == "algebraic" {
            return;
        }
        for unit in units {
            for tol in [1e-4, 1e-7] {
                ctx.case(format!("{}/{method:?}/{unit:e}/{tol:e}", p.name), |t| {
                    let mut params = Params::new(method);
                    params.set_tolerances(tol, tol, None)?;
                    params.newton.use_numerical_jacobian = true;
                    let mut system = System::new(p.dim(), move |f: &mut Vector, x: f64, y: &Vector, _: &mut NoArgs| {
                        for (i, v) in (p.f)(x / unit, y.as_data()).iter().enumerate() {
                            // algebraic equations stay as they are
                            let algebraic = p.mass.map_or(false, |m| m()[i].iter().all(|v| *v == 0.0));
                            f[i] = if algebraic { *v } else { *v / unit };
                        }
                        Ok(())
                    });
                    p.put_mass(&mut system);
                    let d = guarded(|| adapt(params, system, &p.start(), p.x0 * unit, p.x1 * unit))??;
                    t.ops(d.n_steps);
                    t.state_f64(d.y.as_data());
                    check_path(&d, &params, &p.start(), p.x0 * unit, p.x1 * unit)?;
                    let want = (p.sol)(p.x1);
                    for m in 0..want.len() {
                        let ratio = (d.y[m] - want[m]).abs() / (tol * (1.0 + want[m].abs()));
                        ensure!(ratio <= allowed(method, 3, tol), "error is {ratio:.1} times the tolerance: component {m} is {} instead of {}", d.y[m], want[m]);
                    }
                    Ok(())
                });
            }
        }
    });
}

/// Detecting stiffness observes the run without changing it
fn stiffness(run: &mut Run) {
    let all = problems();
    run.section("stiffness detection", all.len() * 2, |ctx, item| {
        let (p, method) = (all[item / 2], [Method::DoPri5, Method::DoPri8][item % 2]);
        if p.mass.is_some() {
            return;
        }
        for tol in [1e-3, 1e-5, 1e-7] {
            for (after, skip) in [(15, 10), (1, 0), (5, 3)] {
                ctx.case(format!("{}/{method:?}/{tol:e}/after{after}/skip{skip}", p.name), |t| {
                    let solve = |enabled: bool, stop: bool| -> Result<(Done, usize, usize), String> {
                        let mut params = Params::new(method);
                        params.set_tolerances(tol, tol, None)?;
                        params.stiffness.enabled = enabled;
                        params.stiffness.stop_with_error = stop;
                        params.stiffness.save_results = true;
                        params.stiffness.ratified_after_nstep = after;
                        params.stiffness.skip_first_n_accepted_step = skip;
                        let mut solver = OdeSolver::new(params, p.system(true))?;
                        let mut out = Output::new();
                        out.set_step_recording(&[0]);
                        let mut y = Vector::from(&p.start());
                        guarded(|| solver.solve(&mut y, p.x0, p.x1, None, &mut 0, Some(&mut out)))??;
                        let d = Done {
                            y,
                            xs: out.step_x().clone(),
                            hs: out.step_h().clone(),
                            ys: vec![out.step_y(0).clone()],
                            n_steps: solver.stats().n_steps,
                            n_accepted: solver.stats().n_accepted,
                            n_rejected: solver.stats().n_rejected,
                        };
                        Ok((d, out.stiff_x().len(), out.stiff_step_index().len()))
                    };
                    t.op();
                    let (a, stiff_a, _) = solve(false, true)?;
                    let (b, stiff_b, index_b) = solve(true, false)?;
                    t.state_f64(a.y.as_data());
                    ensure!(stiff_a == 0, "{stiff_a} stations of stiffness without detection");
                    ensure!(stiff_b == index_b, "{stiff_b} stations but {index_b} steps of stiffness");
                    ensure!(a.y.as_data() == b.y.as_data(), "detection changes the result: {:?} and {:?}", a.y.as_data(), b.y.as_data());
                    ensure!(a.xs == b.xs && a.hs == b.hs && a.ys == b.ys, "detection changes the steps");
                    let stopped = match solve(true, true) {
                        Ok(_) => false,
                        Err(e) if e.contains("stiff") => true,
                        Err(e) => fail!("{e}"),
                    };
                    ensure!(stopped == (stiff_b > 0), "{stiff_b} stations of stiffness, stopped = {stopped}");
                    ensure!(!stopped || p.stiff, "stiffness is seen in a problem that is not stiff");
                    ensure!(stopped || !p.stiff || p.name == "kaps" || after > 1 || a.n_accepted < 60, "stiffness is not seen in {} steps", a.n_accepted);
                    Ok(())
                });
            }
        }
    });
}

pub fn run(run: &mut Run) {
    run.level("exploration", "every problem, method, tolerance and option of the list, every recorded step compared with the known solution");
    run.assume("errors are compared with a calibrated multiple of the tolerance");
    accuracy(run);
    copies(run);
    estimators(run);
    limits(run);
    non_finite(run);
    singular(run);
    undetermined(run);
    scales(run);
    stiffness(run);
}
