//! O05: failures of the user's functions surface at once; counters equal the calls made

use crate::model::*;
use crate::problems::*;
use mc::*;
use russell_lab::Vector;
use russell_ode::{Method, OdeSolver, Output, Params, Stats, System};
use russell_sparse::{CooMatrix, Sym};

/// What the user's functions saw, in order
#[derive(Clone, Copy, Debug, PartialEq)]
enum Event {
    Function,
    Jacobian,
    Step,
    Dense,
}

use Event::*;

const KINDS: [Event; 4] = [Function, Jacobian, Step, Dense];
const MESSAGES: [&str; 4] = ["function wants to fail", "Jacobian wants to fail", "step callback wants to fail", "dense callback wants to fail"];

#[derive(Clone, Default)]
struct Log {
    events: Vec<Event>,
    counts: [usize; 4],
    fail: Option<(usize, usize)>,
    failed: bool,
    late: usize,
    range: Option<(f64, f64)>, // smallest and largest x
}

impl Log {
    fn seen(&mut self, x: f64) {
        let (a, b) = self.range.unwrap_or((x, x));
        self.range = Some((if x >= a { a } else { x }, if x <= b { b } else { x })); // keeps NaN
    }

    fn enter(&mut self, kind: usize) -> Result<(), &'static str> {
        if self.failed {
            self.late += 1;
        }
        self.events.push(KINDS[kind]);
        self.counts[kind] += 1;
        if self.fail == Some((kind, self.counts[kind])) {
            self.failed = true;
            return Err(MESSAGES[kind]);
        }
        Ok(())
    }
}

/// jac: 0 analytical, 1 none given, 2 given but not used
fn system<'a>(p: Problem, jac: usize) -> System<'a, Log> {
    let n = p.dim();
    let mut s = System::new(n, move |f: &mut Vector, x: f64, y: &Vector, log: &mut Log| {
        log.seen(x);
        log.enter(0)?;
        for (i, v) in (p.f)(x, y.as_data()).iter().enumerate() {
            f[i] = *v;
        }
        Ok(())
    });
    if jac != 1 {
        s.set_jacobian(Some(n * n), Sym::No, move |jj: &mut CooMatrix, m: f64, x: f64, y: &Vector, log: &mut Log| {
            log.seen(x);
            log.enter(1)?;
            jj.reset();
            for (i, row) in (p.jac)(x, y.as_data()).iter().enumerate() {
                for (j, v) in row.iter().enumerate() {
                    jj.put(i, j, m * v)?;
                }
            }
            Ok(())
        })
        .unwrap();
    }
    p.put_mass(&mut s);
    s
}

#[derive(Clone, Copy, Debug)]
struct Config {
    jac: usize,
    equal: Option<usize>,
    dense: bool,
    concurrent: bool,
    option: usize,
    tol: f64,
}

fn solve(p: Problem, method: Method, c: Config, fail: Option<(usize, usize)>) -> Result<(Option<&'static str>, Log, Stats, Vec<f64>), String> {
    let mut params = Params::new(method);
    params.set_tolerances(c.tol, c.tol, None)?;
    params.radau5.concurrent = c.concurrent;
    params.newton.use_numerical_jacobian = c.jac == 2;
    params.step.n_step_max = 5000;
    match c.option {
        1 => {
            params.stiffness.enabled = true;
            params.stiffness.stop_with_error = false;
            params.radau5.zero_trial = true;
            params.bweuler.use_modified_newton = true;
        }
        2 => {
            // the first steps are too long
            params.step.h_ini = 0.3 * (p.x1 - p.x0);
            params.radau5.use_pred_control = false;
        }
        3 => params.step.h_ini = p.x1 - p.x0,
        4 => params.step.h_ini = 7.0 * (p.x1 - p.x0),
        5 => params.step.h_ini = 1e6 * (p.x1 - p.x0),
        _ => (),
    }
    let mut solver = OdeSolver::new(params, system(p, c.jac))?;
    let mut out = Output::new();
    out.set_step_callback(|_, _, _, _, log: &mut Log| log.enter(2).map(|_| false));
    if c.dense {
        out.set_dense_callback(|_, _, _, _, log: &mut Log| log.enter(3).map(|_| false));
        out.set_dense_h_out((p.x1 - p.x0) / 5.0)?;
    }
    let mut log = Log::default();
    log.fail = fail;
    let mut y = Vector::from(&p.start());
    let h = c.equal.map(|k| (p.x1 - p.x0) / k as f64);
    let res = guarded(|| solver.solve(&mut y, p.x0, p.x1, h, &mut log, Some(&mut out)))?;
    Ok((res.err(), log, *solver.stats(), y.as_data().clone()))
}

/// Stages of explicit methods and whether the last stage is the first one of the next step
fn stages(method: Method) -> (usize, bool) {
    match method {
        Method::FwEuler => (1, false),
        Method::Rk2 | Method::MdEuler => (2, false),
        Method::Heun3 => (3, false),
        Method::Rk3 | Method::Rk4 | Method::Rk4alt => (4, false),
        Method::Merson4 | Method::Zonneveld4 => (5, false),
        Method::Fehlberg4 => (6, false),
        Method::DoPri5 => (7, true),
        Method::Verner6 => (8, false),
        Method::DoPri8 => (12, false),
        Method::Fehlberg7 => (13, false),
        _ => (0, false),
    }
}

/// The counters of a successful run
fn counters(method: Method, p: &Problem, c: Config, log: &Log, s: &Stats) -> Outcome {
    ensure!(s.n_function == log.counts[0], "{} function evaluations counted, {} made", s.n_function, log.counts[0]);
    ensure!(s.n_accepted + 1 == log.counts[2], "{} accepted steps counted, {} outputs", s.n_accepted, log.counts[2]);
    ensure!(s.n_steps >= s.n_accepted + s.n_rejected, "{} steps, {} accepted, {} rejected", s.n_steps, s.n_accepted, s.n_rejected);
    if let Some(k) = c.equal {
        ensure!(s.n_steps == k && s.n_accepted == k && s.n_rejected == 0, "{} steps, {} accepted, {} rejected instead of {k}", s.n_steps, s.n_accepted, s.n_rejected);
    }
    if implicit(method) {
        if c.jac == 0 {
            ensure!(s.n_jacobian == log.counts[1], "{} Jacobian evaluations counted, {} made", s.n_jacobian, log.counts[1]);
        } else {
            ensure!(log.counts[1] == 0, "the Jacobian function was called {} times", log.counts[1]);
            ensure!(s.n_jacobian > 0, "no Jacobian evaluation was counted");
            ensure!(s.n_jacobian * p.dim() <= s.n_function, "{} numerical Jacobians with {} function evaluations", s.n_jacobian, s.n_function);
        }
        ensure!(s.n_factor >= s.n_jacobian && s.n_lin_sol >= s.n_factor, "{} Jacobians, {} factorizations, {} linear solutions", s.n_jacobian, s.n_factor, s.n_lin_sol);
        ensure!(s.n_iterations_max >= s.n_iterations && s.n_iterations >= 1, "{} iterations, at most {}", s.n_iterations, s.n_iterations_max);
        return Ok(());
    }
    ensure!((s.n_jacobian, s.n_factor, s.n_lin_sol) == (0, 0, 0), "explicit method with {} Jacobians, {} factorizations, {} solutions", s.n_jacobian, s.n_factor, s.n_lin_sol);
    // attempts between accepted steps, from the number of function evaluations
    let (n_stage, same) = stages(method);
    let mut calls = vec![0];
    let mut started = false;
    for e in &log.events {
        match e {
            Step if started => calls.push(0),
            Step => started = true,
            Function => *calls.last_mut().unwrap() += 1,
            _ => (),
        }
    }
    ensure!(calls.pop() == Some(0), "function evaluations after the last step");
    let extra = if method == Method::DoPri8 && c.dense { 3 } else { 0 } + if method == Method::DoPri8 && c.option == 1 { 1 } else { 0 };
    let (mut steps, mut rejected) = (0, 0);
    for (k, n) in calls.iter().enumerate() {
        let first = if k > 0 && same { 0 } else { 1 };
        let attempts = if n_stage == 1 {
            1
        } else {
            if *n <= first + extra || (n - first - extra) % (n_stage - 1) != 0 {
                return Ok(()); // attempts cannot be told from the calls
            }
            (n - first - extra) / (n_stage - 1)
        };
        steps += attempts;
        if k > 0 {
            // rejections of the very first step are not counted (as in the codes by Hairer and Wanner)
            rejected += attempts - 1;
        }
    }
    ensure!(s.n_steps == steps, "{} steps counted, {} made", s.n_steps, steps);
    ensure!(s.n_rejected == rejected, "{} rejected steps counted, {} made", s.n_rejected, rejected);
    Ok(())
}

fn configurations(method: Method, p: &Problem) -> Vec<Config> {
    let mut all = vec![];
    let dense_possible = matches!(method, Method::DoPri5 | Method::DoPri8 | Method::Radau5);
    for jac in 0..3 {
        for equal in [None, Some(1), Some(9)] {
            for dense in [false, true] {
                for concurrent in [false, true] {
                    for option in 0..3 {
                        for tol in [1e-3, 1e-6] {
                            let useless = (!implicit(method) && jac > 0) || (dense && !dense_possible) || (concurrent && method != Method::Radau5) || (equal.is_none() && orders(method).1 == 0) || (p.mass.is_some() && method != Method::Radau5);
                            if !useless {
                                all.push(Config { jac, equal, dense, concurrent, option, tol });
                            }
                        }
                    }
                }
            }
        }
    }
    all
}

/// Counters of runs without faults
fn counting(run: &mut Run) {
    let all = problems();
    run.section("counters", all.len() * ALL.len(), |ctx, item| {
        let (p, method) = (all[item / ALL.len()], ALL[item % ALL.len()]);
        let mut list = configurations(method, &p);
        // first steps as long as the interval or longer
        let long: Vec<Config> = list.iter().filter(|c| c.option == 2 && !c.concurrent).cloned().collect();
        list.extend((3..=5).flat_map(|option| long.iter().map(move |c| Config { option, ..*c })));
        for c in list {
            if c.concurrent && c.tol < 1e-4 {
                continue;
            }
            ctx.case(format!("{}/{method:?}/{c:?}", p.name), |t| {
                let (res, log, s, y) = solve(p, method, c, None)?;
                t.ops(log.events.len());
                t.state_f64(&y);
                // the functions are not evaluated beyond the end points
                let slack = 1e-12 * (p.x1 - p.x0).abs();
                if let Some((lo, hi)) = log.range {
                    ensure!(lo >= p.x0 - slack && hi <= p.x1 + slack, "functions called with x from {lo} to {hi}, the interval is {} to {}", p.x0, p.x1);
                }
                if res.is_some() {
                    t.trivial();
                    // even so the calls are counted
                    ensure!(s.n_function == log.counts[0], "{} function evaluations counted, {} made ({res:?})", s.n_function, log.counts[0]);
                    return Ok(());
                }
                counters(method, &p, c, &log, &s)?;
                // the report has the same numbers
                let text = s.summary();
                let numbers: Vec<&str> = text.lines().filter_map(|l| l.split('=').nth(1)).map(|v| v.trim()).collect();
                let mut want = vec![s.n_function, s.n_steps, s.n_accepted, s.n_rejected];
                if method.information().implicit {
                    want = vec![s.n_function, s.n_jacobian, s.n_factor, s.n_lin_sol, s.n_steps, s.n_accepted, s.n_rejected, s.n_iterations_max];
                }
                let want: Vec<String> = want.iter().map(|v| v.to_string()).collect();
                ensure!(numbers == want, "the report has {numbers:?} instead of {want:?}");
                ensure!(format!("{s}").starts_with(&text), "the complete report does not begin with the short one");
                Ok(())
            });
        }
    });
}

/// One fault at each call of each function
fn faults(run: &mut Run) {
    let all = problems();
    run.section("faults", all.len() * ALL.len() * 4, |ctx, item| {
        let (p, method, kind) = (all[item / ALL.len() / 4], ALL[item / 4 % ALL.len()], item % 4);
        for c in configurations(method, &p) {
            let heavy = c.concurrent && (c.option != 0 || c.tol < 1e-4);
            if heavy && !ctx.thorough() {
                continue;
            }
            let Ok((None, full, _, _)) = solve(p, method, c, None) else { continue };
            let n = full.counts[kind];
            let limit = if ctx.thorough() { 2000 } else if c.concurrent { 25 } else { 120 };
            // all calls, or the first and last ones
            let list: Vec<usize> = if n <= limit { (1..=n).collect() } else { (1..=limit).chain(n - 10..=n).collect() };
            for k in list {
                ctx.case(format!("{}/{method:?}/{c:?}/{:?}{k}", p.name, KINDS[kind]), |t| {
                    let (res, log, _, y) = solve(p, method, c, Some((kind, k)))?;
                    t.ops(log.events.len());
                    t.state_f64(&y);
                    ensure!(res == Some(MESSAGES[kind]), "call {k} of {:?} failed, the result is {:?}", KINDS[kind], res);
                    ensure!(log.late == 0, "{} calls after the failure", log.late);
                    let m = log.events.len();
                    ensure!(log.events[..] == full.events[..m], "calls before the failure are not the ones of the full run");
                    Ok(())
                });
            }
        }
    });
}

pub fn run(run: &mut Run) {
    run.level("fault_enumeration", "every call of every user function fails once in every configuration; counters compared with the log of the calls");
    run.assume("quick: the first 120 and last 11 calls of each function fail (25 and 11 in concurrent mode); thorough: the first 2000");
    run.assume("rejections before the first accepted step are not counted as rejected, as in the original codes");
    counting(run);
    faults(run);
}
