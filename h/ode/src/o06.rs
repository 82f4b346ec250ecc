//! O06: stiffness is declared at the step the documented rule says

use mc::*;
use russell_lab::{StrError, Vector};
use russell_ode::{Method, OdeSolver, Output, Params, System};

/// The pattern of stiff and non-stiff steps that the problem is going to show, and the orders for the callback
#[derive(Clone, Default)]
pub struct Script {
    /// Eigenvalue times stepsize in each step
    pub h_rho: Vec<f64>,
    pub stop_at: Option<usize>,
    pub outputs: usize,
}

/// The stepsize (exactly representable, and so are its multiples)
pub const H: f64 = 0.25;

/// A linear problem whose eigenvalue is a given constant in each step (as far as the end of the step goes)
pub fn system<'a>() -> System<'a, Script> {
    System::new(2, |f: &mut Vector, x: f64, y: &Vector, s: &mut Script| {
        let k = (f64::ceil(x / H) as usize).max(1) - 1;
        let lambda = s.h_rho[k.min(s.h_rho.len() - 1)] / H;
        f[0] = -lambda * y[0];
        f[1] = -lambda * y[1];
        Ok(())
    })
}

/// What the rule makes of a sequence of h·ρ values
pub struct Expected {
    /// Accepted steps (from 1) at which stiffness is declared
    pub index: Vec<usize>,
    /// Number of the step (from 0) in which the declared stiffness was first seen
    pub first: Vec<usize>,
}

/// The documented rule
pub fn rule(h_rho: &[f64], limit: f64, skip: usize, ratified: usize, ignored: usize) -> Expected {
    let mut res = Expected { index: vec![], first: vec![] };
    let mut seen: Vec<usize> = vec![]; // stiff steps since watching from scratch
    let mut quiet = 0; // consecutive steps without a signal
    for (k, v) in h_rho.iter().enumerate() {
        if k < skip {
            continue;
        }
        if *v > limit {
            quiet = 0;
            seen.push(k);
            if seen.len() == ratified {
                res.index.push(k + 1);
                res.first.push(seen[0]);
            }
        } else {
            quiet += 1;
            if quiet == ignored {
                seen.clear();
            }
        }
    }
    res
}

fn limit(method: Method) -> f64 {
    match method {
        Method::DoPri5 => 3.25,
        Method::DoPri8 => 6.1,
        _ => f64::INFINITY,
    }
}

/// Everything seen in one run
struct Seen {
    result: Result<(), StrError>,
    accepted: usize,
    h: Vec<f64>,
    x: Vec<f64>,
    h_rho: Vec<f64>,
    index: Vec<usize>,
    first: Vec<f64>,
}

fn observe(out: &Output<Script>, result: Result<(), StrError>, accepted: usize) -> Seen {
    Seen {
        result,
        accepted,
        h: out.step_h().clone(),
        x: out.step_x().clone(),
        h_rho: out.stiff_h_times_rho().to_vec(),
        index: out.stiff_step_index().to_vec(),
        first: out.stiff_x().to_vec(),
    }
}

/// Every pattern of stiff and non-stiff steps with equal stepsizes
fn patterns(run: &mut Run) {
    let len = run.pick(11, 14);
    let settings = pow(3, 3);
    let methods = [Method::DoPri5, Method::DoPri8, Method::Merson4];
    run.section("patterns of steps", methods.len() * settings * 2, |ctx, item| {
        let (method, setting, stop) = (methods[item / 2 / settings], item / 2 % settings, item % 2 > 0);
        let d = digits(setting, 3, 3);
        let (ratified, ignored, skip) = (d[0] + 1, d[1] + 1, [0, 1, 4][d[2]]);
        let mut params = Params::new(method);
        params.stiffness.enabled = true;
        params.stiffness.save_results = true;
        params.stiffness.stop_with_error = stop;
        params.stiffness.ratified_after_nstep = ratified;
        params.stiffness.ignored_after_nstep = ignored;
        params.stiffness.skip_first_n_accepted_step = skip;
        for code in 0..1_usize << len {
            ctx.case(format!("{method:?}/ratified{ratified}/ignored{ignored}/skip{skip}/stop={stop}/{code:b}"), |t| {
                // just above and well above the limit; just below and well below
                let l = limit(method).min(4.0);
                let h_rho: Vec<f64> = (0..len).map(|k| if code >> k & 1 > 0 { l + if k % 2 > 0 { 0.01 } else { 1.0 } } else if k % 3 > 0 { 1.0 } else { l - 0.01 }).collect();
                let mut solver = OdeSolver::new(params, system())?;
                let mut out = Output::new();
                out.set_step_recording(&[0]);
                let mut args = Script { h_rho: h_rho.clone(), ..Default::default() };
                let mut y = Vector::from(&[1e60, -3e59]);
                let res = guarded(|| solver.solve(&mut y, 0.0, len as f64 * H, Some(H), &mut args, Some(&mut out)))?;
                let seen = observe(&out, res, solver.stats().n_accepted);
                t.ops(len);
                t.state(&(item, &seen.index, seen.accepted));
                let want = rule(&h_rho, limit(method), skip, ratified, ignored);
                if stop && !want.index.is_empty() {
                    ensure!(seen.result == Err("stiffness detected"), "{:?}, but stiffness must stop the run in step {}", seen.result, want.index[0]);
                    ensure!(seen.accepted == want.index[0], "stopped in step {} instead of {}", seen.accepted, want.index[0]);
                    ensure!(seen.x.len() == want.index[0], "{} points recorded before the stop in step {}", seen.x.len(), want.index[0]);
                    ensure!(seen.index.is_empty(), "stiffness recorded in {:?}", seen.index);
                } else {
                    ensure!(seen.result.is_ok(), "{:?}", seen.result);
                    ensure!(seen.accepted == len && seen.x.len() == len + 1, "{} steps, {} points", seen.accepted, seen.x.len());
                    ensure!(seen.index == want.index, "stiffness declared in {:?} instead of {:?}", seen.index, want.index);
                    let first: Vec<f64> = want.first.iter().map(|k| *k as f64 * H).collect();
                    ensure!(seen.first == first, "stiffness said to begin at {:?} instead of {first:?}", seen.first);
                }
                ensure!(seen.h_rho.len() == seen.x.len(), "{} values of h·ρ for {} points", seen.h_rho.len(), seen.x.len());
                for k in 1..seen.h_rho.len() {
                    let w = if method == Method::Merson4 { 0.0 } else { h_rho[k - 1] };
                    ensure!((seen.h_rho[k] - w).abs() <= 1e-6 * w, "h·ρ = {} instead of {w} in step {k}", seen.h_rho[k]);
                }
                Ok(())
            });
        }
    });
}

/// Adaptive runs of linear problems with tolerances that let stability limit the stepsize
fn adaptive(run: &mut Run) {
    let lambdas = [0.3, 4.0, 40.0, 700.0];
    let tols = [1e-1, 1e-2, 1e-3, 1e-5];
    run.section("adaptive runs", 2 * lambdas.len() * tols.len(), |ctx, item| {
        let method = [Method::DoPri5, Method::DoPri8][item / lambdas.len() / tols.len()];
        let (lambda, tol) = (lambdas[item / tols.len() % lambdas.len()], tols[item % tols.len()]);
        for code in 0..pow(4, 3) {
            let d = digits(code, 4, 3);
            let (ratified, ignored, skip) = ([1, 2, 5, 15][d[0]], [1, 2, 6, 30][d[1]], [0, 1, 10, 40][d[2]]);
            for stop in [false, true] {
                ctx.case(format!("{method:?}/lambda{lambda}/{tol:e}/ratified{ratified}/ignored{ignored}/skip{skip}/stop={stop}"), |t| {
                    let mut seen = vec![];
                    for watch in [false, true] {
                        let mut params = Params::new(method);
                        params.set_tolerances(tol, tol, None)?;
                        params.stiffness.enabled = watch;
                        params.stiffness.save_results = true;
                        params.stiffness.stop_with_error = stop;
                        params.stiffness.ratified_after_nstep = ratified;
                        params.stiffness.ignored_after_nstep = ignored;
                        params.stiffness.skip_first_n_accepted_step = skip;
                        // the forcing keeps the stages apart
                        let sys: System<Script> = System::new(1, move |f: &mut Vector, x: f64, y: &Vector, _| {
                            f[0] = -lambda * (y[0] - 1e3 * f64::cos(x));
                            Ok(())
                        });
                        let mut solver = OdeSolver::new(params, sys)?;
                        let mut out = Output::new();
                        out.set_step_recording(&[0]);
                        let mut args = Script::default();
                        let mut y = Vector::from(&[0.0]);
                        let res = guarded(|| solver.solve(&mut y, 0.0, 2.0, None, &mut args, Some(&mut out)))?;
                        t.ops(out.step_x().len());
                        seen.push(observe(&out, res, solver.stats().n_accepted));
                    }
                    let (plain, seen) = (&seen[0], &seen[1]);
                    t.state(&(item, &seen.index, seen.accepted));
                    ensure!(plain.result.is_ok(), "{:?} without detection", plain.result);
                    ensure!(plain.index.is_empty() && plain.first.is_empty(), "stiffness recorded although the detection is disabled");
                    // the detection does not change the steps
                    let n = seen.x.len();
                    ensure!(seen.x[..] == plain.x[..n], "the detection changes the steps");
                    let model: Vec<f64> = plain.h[1..].iter().map(|h| h * lambda).collect();
                    for k in 1..n {
                        if model[k - 1] < 1.0 {
                            // the stages may be too close to each other to estimate ρ
                            ensure!(seen.h_rho[k] < 2.0, "h·ρ = {} instead of {} in step {k}", seen.h_rho[k], model[k - 1]);
                            continue;
                        }
                        ensure!((seen.h_rho[k] - model[k - 1]).abs() <= 1e-5 * model[k - 1], "h·ρ = {} instead of {} in step {k}", seen.h_rho[k], model[k - 1]);
                    }
                    if model.iter().any(|v| (v - limit(method)).abs() < 1e-4) {
                        return Ok(()); // too close to tell
                    }
                    let want = rule(&model, limit(method), skip, ratified, ignored);
                    if stop && !want.index.is_empty() {
                        ensure!(seen.result == Err("stiffness detected"), "{:?}, but stiffness must stop the run in step {}", seen.result, want.index[0]);
                        ensure!(seen.accepted == want.index[0] && n == want.index[0], "stopped in step {} instead of {}", seen.accepted, want.index[0]);
                    } else {
                        ensure!(seen.result.is_ok() && n == plain.x.len(), "{:?}, {n} points", seen.result);
                        ensure!(seen.index == want.index, "stiffness declared in {:?} instead of {:?}", seen.index, want.index);
                        let first: Vec<f64> = want.first.iter().map(|k| plain.x[*k]).collect();
                        ensure!(seen.first.len() == first.len(), "{} beginnings", seen.first.len());
                        for (a, b) in seen.first.iter().zip(&first) {
                            ensure!((a - b).abs() < 1e-12, "stiffness said to begin at {a} instead of {b}");
                        }
                    }
                    Ok(())
                });
            }
        }
    });
}

pub fn run(run: &mut Run) {
    run.level("model_checking", "every pattern of stiff and non-stiff steps up to the length, for every setting of the rule, compared step by step with the documented rule");
    run.assume("patterns of eleven (thorough: fourteen) steps; counters of the rule up to three; h·ρ at least 0.01 away from the limit");
    patterns(run);
    adaptive(run);
}
