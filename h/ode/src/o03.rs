//! O03: what a solver did before has no influence on what it does next

use crate::model::*;
use crate::problems::*;
use mc::*;
use russell_lab::{StrError, Vector};
use russell_ode::{Method, OdeSolver, Output, Params, System};
use russell_sparse::{CooMatrix, Sym};

/// Orders for the functions of the system and for the callbacks
#[derive(Clone, Default)]
struct Args {
    calls: usize,
    fail_at: Option<usize>,
    fail_jacobian: Option<usize>,
    jacobians: usize,
    spoil_at: Option<usize>,
    stop_at: Option<usize>,
    outputs: usize,
}

const MASS: [[f64; 2]; 2] = [[2.0, 1.0], [1.0, 3.0]];

/// A mildly stiff oscillator with orders obeyed; configuration: 0 analytical, 1 without Jacobian, 2 with mass matrix
fn system<'a>(config: usize) -> System<'a, Args> {
    let rhs = move |x: f64, y: &Vector| [y[1], 4.0 * (1.0 - y[0] * y[0]) * y[1] - y[0] + 0.1 * x];
    let mut s = System::new(2, move |f: &mut Vector, x: f64, y: &Vector, a: &mut Args| {
        a.calls += 1;
        if a.fail_at == Some(a.calls) {
            return Err("asked to fail");
        }
        let g = rhs(x, y);
        for i in 0..2 {
            f[i] = if config == 2 { MASS[i][0] * g[0] + MASS[i][1] * g[1] } else { g[i] };
        }
        if a.spoil_at == Some(a.calls) {
            f[0] = f64::NAN;
        }
        Ok(())
    });
    if config != 1 {
        let nnz = if config == 2 { 4 } else { 3 }; // the first entry is never set if it is zero
        s.set_jacobian(Some(nnz), Sym::No, move |jj: &mut CooMatrix, m: f64, _: f64, y: &Vector, a: &mut Args| {
            a.jacobians += 1;
            if a.fail_jacobian == Some(a.jacobians) {
                return Err("asked to fail in the Jacobian");
            }
            let g = [[0.0, 1.0], [-8.0 * y[0] * y[1] - 1.0, 4.0 * (1.0 - y[0] * y[0])]];
            jj.reset();
            for i in 0..2 {
                for j in 0..2 {
                    let v = if config == 2 { MASS[i][0] * g[0][j] + MASS[i][1] * g[1][j] } else { g[i][j] };
                    if config == 2 || i + j > 0 {
                        jj.put(i, j, m * v)?;
                    }
                }
            }
            Ok(())
        })
        .unwrap();
    }
    if config == 2 {
        s.set_mass(Some(4), Sym::No, |mm: &mut CooMatrix| {
            for i in 0..2 {
                for j in 0..2 {
                    mm.put(i, j, MASS[i][j]).unwrap();
                }
            }
        })
        .unwrap();
    }
    s
}

/// Parameter sets
fn params(method: Method, which: usize) -> Params {
    let mut p = Params::new(method);
    p.set_tolerances(1e-5, 1e-5, None).unwrap();
    p.step.n_step_max = 3000;
    p.radau5.concurrent = false;
    match which {
        0 => (),
        1 => {
            p.set_tolerances(1e-3, 1e-4, None).unwrap();
            p.erk.lund_beta = 0.08;
            p.erk.lund_m = 0.5;
            p.step.m_min = 0.3;
            p.step.m_max = 3.0;
            p.step.m_safety = 0.8;
            p.step.h_ini = 0.01;
            p.step.rel_error_prev_min = 1e-3;
            p.radau5.theta_max = 0.01;
            p.bweuler.use_modified_newton = true;
            p.newton.n_iteration_max = 30;
        }
        2 => p.step.n_step_max = 7,
        3 => {
            // loose tolerances: the stepsize comes to be limited by stability
            p.set_tolerances(3e-2, 3e-2, None).unwrap();
            p.stiffness.enabled = true;
            p.stiffness.stop_with_error = false;
            p.stiffness.save_results = true;
            p.stiffness.ratified_after_nstep = 2;
            p.stiffness.skip_first_n_accepted_step = 0;
            p.newton.use_numerical_jacobian = true;
        }
        4 => {
            p.set_tolerances(3e-2, 3e-2, None).unwrap();
            p.stiffness.enabled = true;
            p.stiffness.ratified_after_nstep = 1;
            p.stiffness.skip_first_n_accepted_step = 0;
            p.radau5.zero_trial = true;
            p.radau5.use_pred_control = false;
        }
        _ => panic!("parameters"),
    }
    p
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Action {
    Long,
    Other,
    Equal,
    Dense,
    FailFirst,
    FailMiddle,
    FailJacobian,
    Spoil,
    StopFirst,
    StopMiddle,
    Still,
    Wrong,
    Update(usize),
    Stations(usize),
}

use Action::*;

const ACTIONS: [Action; 20] = [
    Long,
    Other,
    Equal,
    Dense,
    FailFirst,
    FailMiddle,
    FailJacobian,
    Spoil,
    StopFirst,
    StopMiddle,
    Still,
    Wrong,
    Update(0),
    Update(1),
    Update(2),
    Update(3),
    Update(4),
    Stations(0),
    Stations(1),
    Stations(2),
];

/// Sets the stations of the dense output
fn stations(out: &mut Output<Args>, which: usize) {
    match which {
        0 => out.set_dense_h_out(0.35).unwrap(),
        1 => out.set_dense_x_out(&[0.1, 0.11, 0.6]).unwrap(),
        _ => out.set_dense_h_out(0.05).unwrap(),
    };
}

fn with_dense(method: Method) -> bool {
    matches!(method, Method::DoPri5 | Method::DoPri8 | Method::Radau5)
}

/// Everything that can be seen after a solve
#[derive(Clone, PartialEq, Debug, Default)]
struct Seen {
    result: Option<&'static str>,
    y: Vec<u64>,
    stats: Vec<usize>,
    h_accepted: u64,
    step: Vec<Vec<u64>>,
    dense: Vec<Vec<u64>>,
    stiff: Vec<Vec<u64>>,
    calls: usize,
    jacobians: usize,
}

fn bits(v: &[f64]) -> Vec<u64> {
    v.iter().map(|x| x.to_bits()).collect()
}

fn new_output<'a>(dense: bool, which: usize) -> Output<'a, Args> {
    let mut out = Output::new();
    out.set_step_recording(&[0, 1]).set_step_callback(|_, _, _, _, a: &mut Args| {
        a.outputs += 1;
        Ok(a.stop_at == Some(a.outputs))
    });
    if dense {
        stations(&mut out, which);
        out.set_dense_recording(&[0, 1]);
    }
    out
}

fn solve<'a>(solver: &mut OdeSolver<'a, Args>, method: Method, action: Action, out: Option<&mut Output<'a, Args>>) -> Result<Seen, String> {
    let mut args = Args::default();
    let (mut start, mut x0, mut x1, mut h) = (vec![2.0, -0.6], 0.0, 2.5, None);
    match action {
        Other => {
            start = vec![-2.0, 0.5];
            x0 = -1.0;
            x1 = 0.05;
        }
        Equal => h = Some(0.05),
        FailFirst => args.fail_at = Some(1),
        FailMiddle => args.fail_at = Some(37),
        FailJacobian => args.fail_jacobian = Some(2),
        Spoil => args.spoil_at = Some(41),
        StopFirst => args.stop_at = Some(1),
        StopMiddle => args.stop_at = Some(5),
        Still => {
            // at rest: the origin with the forcing being small
            start = vec![0.0, 0.0];
            x1 = 1e-6;
        }
        Wrong => x1 = x0 - 1.0,
        _ => (),
    }
    let mut y = Vector::from(&start);
    let mut shown = Seen::default();
    let mut plain = new_output(action == Dense && with_dense(method), 0);
    let dense = (action == Dense && with_dense(method)) || out.is_some();
    let target = match out {
        Some(o) => o,
        None => &mut plain,
    };
    let res = guarded(|| solver.solve(&mut y, x0, x1, h, &mut args, Some(target)))?;
    shown.result = res.err();
    shown.y = bits(y.as_data());
    let s = solver.stats();
    // the records mean nothing if the arguments were refused
    let refused = shown.result.is_some() && args.calls == 0;
    if !refused {
        shown.stats = vec![s.n_function, s.n_jacobian, s.n_factor, s.n_lin_sol, s.n_steps, s.n_accepted, s.n_rejected, s.n_iterations, s.n_iterations_max];
        shown.h_accepted = s.h_accepted.to_bits();
        shown.step = vec![bits(target.step_x()), bits(target.step_h()), bits(target.step_y(0)), bits(target.step_y(1))];
        if dense && with_dense(method) {
            shown.dense = vec![bits(target.dense_x()), bits(target.dense_y(0)), bits(target.dense_y(1))];
        }
        shown.stiff = vec![bits(target.stiff_x()), bits(target.stiff_h_times_rho()), target.stiff_step_index().iter().map(|v| *v as u64).collect()];
    }
    shown.calls = args.calls;
    shown.jacobians = args.jacobians;
    Ok(shown)
}

fn differ(a: &Seen, b: &Seen) -> Outcome {
    ensure!(a.result == b.result, "result {:?}, but {:?} with a new solver", a.result, b.result);
    ensure!(a.y == b.y, "solution differs from the one of a new solver");
    ensure!(a.stats == b.stats, "statistics {:?}, but {:?} with a new solver", a.stats, b.stats);
    ensure!(a.h_accepted == b.h_accepted, "accepted stepsize differs from the one of a new solver");
    ensure!(a.step == b.step, "recorded steps differ from the ones of a new solver ({} and {})", a.step[0].len(), b.step[0].len());
    ensure!(a.dense == b.dense, "dense output differs from the one of a new solver");
    ensure!(a.stiff == b.stiff, "recorded stiffness differs from the one of a new solver ({} and {})", a.stiff[0].len(), b.stiff[0].len());
    ensure!(a.calls == b.calls && a.jacobians == b.jacobians, "function calls {}, Jacobian calls {}, but {}, {} with a new solver", a.calls, a.jacobians, b.calls, b.jacobians);
    Ok(())
}

/// Every history of actions on one solver (and one output), every action compared with a new solver
fn histories(run: &mut Run) {
    let depth = run.pick(3, 4);
    let na = ACTIONS.len();
    // method, system configuration, output shared between the actions
    let mut setups = vec![];
    for method in ALL {
        for config in 0..3 {
            if (config == 2 && method != Method::Radau5) || (config == 1 && !implicit(method)) {
                continue;
            }
            for shared in 0..3 {
                setups.push((method, config, shared));
            }
        }
    }
    run.section("histories", setups.len() * na, |ctx, item| {
        let ((method, config, shared), first) = (setups[item / na], item % na);
        // what new solvers do, for each parameter set and action
        let mut fresh: Vec<Vec<Option<Seen>>> = vec![vec![None; na]; 15];
        let depth = if matches!(method, Method::Rk2 | Method::Rk3 | Method::Heun3 | Method::Rk4 | Method::Rk4alt | Method::Zonneveld4 | Method::Fehlberg4 | Method::Fehlberg7) { 2 } else { depth };
        for code in 0..pow(na, depth - 1) {
            let mut list = vec![first];
            list.extend(digits(code, na, depth - 1));
            ctx.case(format!("{method:?}/config{config}/shared{shared}/{:?}", list.iter().map(|i| ACTIONS[*i]).collect::<Vec<_>>()), |t| {
                let (mut current, mut setting) = (0, 0);
                let mut solver = OdeSolver::new(params(method, current), system(config))?;
                let mut out = new_output(shared == 2 && with_dense(method), 0);
                for (k, i) in list.iter().enumerate() {
                    t.op();
                    if let Update(which) = ACTIONS[*i] {
                        solver.update_params(params(method, which))?;
                        current = which;
                        continue;
                    }
                    if let Stations(which) = ACTIONS[*i] {
                        if shared == 2 {
                            stations(&mut out, which);
                            setting = which;
                        }
                        continue;
                    }
                    let target = if shared > 0 { Some(&mut out) } else { None };
                    let got = solve(&mut solver, method, ACTIONS[*i], target).map_err(|e| format!("action {k}: {e}"))?;
                    if fresh[3 * current + setting][*i].is_none() {
                        let mut new = OdeSolver::new(params(method, current), system(config))?;
                        let mut o = new_output(shared == 2 && with_dense(method), setting);
                        let target = if shared > 0 { Some(&mut o) } else { None };
                        fresh[3 * current + setting][*i] = Some(solve(&mut new, method, ACTIONS[*i], target)?);
                    }
                    let want = fresh[3 * current + setting][*i].as_ref().unwrap();
                    t.state(&(item, got.result, &got.y, &got.stats, current));
                    differ(&got, want).map_err(|e| format!("action {k} ({:?}): {e}", ACTIONS[*i]))?;
                }
                Ok(())
            });
        }
    });
}

/// Every pair of patterns of stiff and non-stiff steps, solved one after the other with the stiffness watched
fn stiffness(run: &mut Run) {
    use crate::o06::{system, Script, H};
    type Shown = (Option<StrError>, Vec<u64>, usize, usize, Vec<u64>, Vec<u64>, Vec<u64>, Vec<usize>);
    fn solve<'a>(solver: &mut OdeSolver<'a, Script>, out: &mut Output<'a, Script>, method: Method, len: usize, code: usize) -> Result<Shown, String> {
        let (low, high) = if method == Method::DoPri5 { (2.0, 4.0) } else { (4.0, 7.0) };
        let mut args = Script { h_rho: (0..len).map(|k| if code >> k & 1 > 0 { high } else { low }).collect(), ..Default::default() };
        let mut y = Vector::from(&[1e3, -3e2]);
        let res = guarded(|| solver.solve(&mut y, 0.0, len as f64 * H, Some(H), &mut args, Some(out)))?;
        let s = solver.stats();
        Ok((res.err(), bits(y.as_data()), s.n_accepted, s.n_function, bits(out.step_x()), bits(out.stiff_x()), bits(out.stiff_h_times_rho()), out.stiff_step_index().to_vec()))
    }
    let len = run.pick(5, 6);
    let methods = [Method::DoPri5, Method::DoPri8];
    run.section("patterns of stiffness", methods.len() * 3 * 2 * 2 * 2, |ctx, item| {
        let (method, ratified, ignored) = (methods[item % 2], item / 2 % 3 + 1, item / 6 % 2 + 2);
        let (stop, shared) = (item / 12 % 2 > 0, item / 24 > 0);
        let mut params = Params::new(method);
        params.stiffness.enabled = true;
        params.stiffness.save_results = true;
        params.stiffness.stop_with_error = stop;
        params.stiffness.ratified_after_nstep = ratified;
        params.stiffness.ignored_after_nstep = ignored;
        params.stiffness.skip_first_n_accepted_step = 0;
        let output = || {
            let mut out = Output::new();
            out.set_step_recording(&[0]);
            out
        };
        let fresh: Vec<_> = (0..1_usize << len).map(|code| solve(&mut OdeSolver::new(params, system()).unwrap(), &mut output(), method, len, code)).collect();
        for code in 0..1_usize << (2 * len) {
            let (first, second) = (code >> len, code & ((1 << len) - 1));
            ctx.case(format!("{method:?}/ratified{ratified}/ignored{ignored}/stop={stop}/shared={shared}/{first:b}/{second:b}"), |t| {
                let mut solver = OdeSolver::new(params, system())?;
                let mut out = output();
                let a = solve(&mut solver, &mut out, method, len, first)?;
                let b = if shared { solve(&mut solver, &mut out, method, len, second)? } else { solve(&mut solver, &mut output(), method, len, second)? };
                t.ops(2 * len);
                t.state(&(item, &b));
                ensure!(Ok(&a) == fresh[first].as_ref(), "first run: {a:?} instead of {:?}", fresh[first]);
                ensure!(Ok(&b) == fresh[second].as_ref(), "second run: {b:?} instead of {:?}", fresh[second]);
                Ok(())
            });
        }
    });
}

/// Every sequence of intervals solved by solvers of all methods and systems of several sizes with one output, compared with a new output
fn intervals(run: &mut Run) {
    const DENSE: [Method; 3] = [Method::DoPri5, Method::DoPri8, Method::Radau5];
    const PLACES: [(f64, f64); 6] = [(0.0, 1.0), (1.0, 2.0), (0.25, 1.25), (0.0, 2.0), (-1.5, 0.5), (0.25, 0.5)];
    // number of equations on each interval
    const DIMS: [usize; 6] = [2, 2, 3, 4, 2, 3];
    const SPACINGS: [f64; 4] = [0.25, 0.3, 0.7, 4.0];
    fn output<'a>(spacing: Option<f64>) -> Result<Output<'a, u8>, StrError> {
        let mut out = Output::new();
        out.set_step_recording(&[1, 0]).set_yx_correct(|y, x, _| {
            y[0] = f64::cos(x);
            y[1] = f64::sin(x);
            for i in 2..y.dim() {
                y[i] = x;
            }
        });
        if let Some(h) = spacing {
            out.set_dense_h_out(h)?;
        }
        out.set_dense_recording(&[0, 1]);
        Ok(out)
    }
    fn solver<'a>(method: Method, ndim: usize) -> Result<OdeSolver<'a, u8>, StrError> {
        let mut s = System::new(ndim, move |f: &mut Vector, _: f64, y: &Vector, _: &mut u8| {
            f[0] = -y[1];
            f[1] = y[0];
            for i in 2..ndim {
                f[i] = 1.0;
            }
            Ok(())
        });
        s.set_jacobian(Some(2), Sym::No, |jj: &mut CooMatrix, m: f64, _: f64, _: &Vector, _: &mut u8| {
            jj.reset();
            jj.put(0, 1, -m)?;
            jj.put(1, 0, m)
        })?;
        let mut params = Params::new(method);
        params.step.h_ini = 0.1;
        params.radau5.concurrent = false;
        OdeSolver::new(params, s)
    }
    type Shown = (Option<StrError>, Vec<u64>, Vec<Vec<u64>>);
    fn solve<'a>(solver: &mut OdeSolver<'a, u8>, out: &mut Output<'a, u8>, place: usize, equal: bool) -> Result<Shown, String> {
        let (x0, x1) = PLACES[place];
        let mut y = Vector::filled(DIMS[place], x0);
        y[0] = f64::cos(x0);
        y[1] = f64::sin(x0);
        let h = if equal { Some((x1 - x0) / 4.0) } else { None };
        let res = guarded(|| solver.solve(&mut y, x0, x1, h, &mut 0, Some(out)))?;
        let mut seen = vec![bits(out.step_x()), bits(out.step_h()), bits(out.step_global_error()), bits(out.dense_x())];
        for m in 0..2 {
            seen.push(bits(out.step_y(m)));
            seen.push(bits(out.dense_y(m)));
        }
        Ok((res.err(), bits(y.as_data()), seen))
    }
    let np = PLACES.len();
    let choices = 2 * 3 * np; // equal steps, method and interval
    let settings = SPACINGS.len() + 1;
    let depth = run.pick(2, 3);
    run.section("one output for all intervals", settings * choices, |ctx, item| {
        let spacing = SPACINGS.get(item / choices).copied();
        let fresh: Vec<Shown> = (0..choices).map(|c| solve(&mut solver(DENSE[c / np % 3], DIMS[c % np]).unwrap(), &mut output(spacing).unwrap(), c % np, c / np / 3 > 0).unwrap()).collect();
        for code in 0..pow(choices, depth - 1) {
            let mut list = vec![item % choices];
            list.extend(digits(code, choices, depth - 1));
            let key = list.iter().map(|c| format!("{:?} {:?}{}", DENSE[c / np % 3], PLACES[c % np], if c / np / 3 > 0 { " equal" } else { "" })).collect::<Vec<_>>().join(", ");
            ctx.case(format!("{spacing:?}/{key}"), |t| {
                let mut solvers = vec![];
                for k in 0..9 {
                    solvers.push(solver(DENSE[k / 3], 2 + k % 3)?);
                }
                let mut out = output(spacing)?;
                for c in &list {
                    t.op();
                    let got = solve(&mut solvers[3 * (c / np % 3) + DIMS[c % np] - 2], &mut out, c % np, c / np / 3 > 0)?;
                    t.state(&(spacing.map(|h| h.to_bits()), *c, &got.1));
                    let want = &fresh[*c];
                    ensure!(got.0.is_none() && want.0.is_none(), "result {:?}, {:?} with a new output", got.0, want.0);
                    ensure!(got.1 == want.1, "solution differs from the one of a new solver");
                    ensure!(got.2 == want.2, "records on {:?} differ from the ones of a new output", PLACES[*c % np]);
                }
                Ok(())
            });
        }
    });
}

/// Sequential and concurrent runs, and runs with copies of the system, are the same
fn concurrency(run: &mut Run) {
    let all = problems();
    run.section("sequential and concurrent", all.len() * 16, |ctx, item| {
        let (p, config) = (all[item / 16], item % 16);
        for tol in [1e-3, 1e-5, 1e-7, 1e-9] {
            for equal in [None, Some((p.x1 - p.x0) / 25.0)] {
                ctx.case(format!("{}/config{config}/{tol:e}/{equal:?}", p.name), |t| {
                    let solve = |concurrent: bool| -> Result<(Option<StrError>, Vec<u64>, Vec<usize>, Vec<u64>), String> {
                        let mut params = Params::new(Method::Radau5);
                        params.set_tolerances(tol, tol, None)?;
                        params.radau5.concurrent = concurrent;
                        params.newton.use_numerical_jacobian = config & 1 > 0;
                        params.radau5.zero_trial = config & 2 > 0;
                        params.radau5.use_pred_control = config & 4 == 0;
                        if config & 8 > 0 {
                            params.step.h_ini = 0.1;
                            params.newton.n_iteration_max = 5;
                        }
                        let sys: System<u8> = p.system(true);
                        let mut solver = OdeSolver::new(params, if concurrent { sys.clone() } else { sys })?;
                        let mut out = Output::new();
                        out.set_step_recording(&[0]).set_dense_h_out((p.x1 - p.x0) / 4.0)?.set_dense_recording(&[0]);
                        let mut y = Vector::from(&p.start());
                        let res = guarded(|| solver.solve(&mut y, p.x0, p.x1, equal, &mut 0, Some(&mut out)))?;
                        let s = solver.stats();
                        let stats = vec![s.n_function, s.n_jacobian, s.n_factor, s.n_lin_sol, s.n_steps, s.n_accepted, s.n_rejected, s.n_iterations_max];
                        let mut seen = bits(out.step_x());
                        seen.extend(bits(out.step_y(0)));
                        seen.extend(bits(out.dense_y(0)));
                        Ok((res.err(), bits(y.as_data()), stats, seen))
                    };
                    let a = solve(false)?;
                    let b = solve(true)?;
                    t.ops(2);
                    t.state(&a);
                    ensure!(a.0 == b.0, "result {:?} in sequence, {:?} concurrently", a.0, b.0);
                    ensure!(a.1 == b.1 && a.3 == b.3, "results are not the same");
                    ensure!(a.2 == b.2, "statistics {:?} in sequence, {:?} concurrently", a.2, b.2);
                    Ok(())
                });
            }
        }
    });
}

pub fn run(run: &mut Run) {
    run.level("model_checking", "every history of solves, failures, stops and parameter updates up to the depth, each action compared bit by bit with a new solver");
    run.assume("one nonlinear system of dimension two; histories of depth three (two for methods sharing the same code)");
    histories(run);
    stiffness(run);
    intervals(run);
    concurrency(run);
}
