//! O04: output is recorded once per requested station, in order and accurate

use crate::model::*;
use crate::problems::*;
use mc::*;
use russell_lab::{StrError, Vector};
use russell_ode::{Method, OdeSolver, OutCount, OutData, Output, Params, Stats, System};
use std::sync::Arc;

/// One call of a callback
#[derive(Clone, Debug, PartialEq)]
struct Call {
    accepted: usize,
    h: f64,
    x: f64,
    y: Vec<f64>,
}

/// Log of the callbacks and orders to stop
#[derive(Clone, Default)]
struct Log {
    step: Vec<Call>,
    dense: Vec<Call>,
    stop_step: Option<usize>,
    stop_dense: Option<usize>,
    stopped: bool,
    late: usize,
}

const DENSE: [Method; 3] = [Method::DoPri5, Method::DoPri8, Method::Radau5];

fn params(method: Method, tol: f64) -> Params {
    let mut p = Params::new(method);
    p.set_tolerances(tol, tol, None).unwrap();
    p.radau5.concurrent = false;
    p.step.n_step_max = 10000;
    p
}

fn step_logged<'a>(out: &mut Output<'a, Log>) {
    out.set_step_callback(|stats: &Stats, h, x, y: &Vector, log: &mut Log| -> Result<bool, StrError> {
        if log.stopped {
            log.late += 1;
        }
        log.step.push(Call {
            accepted: stats.n_accepted,
            h,
            x,
            y: y.as_data().clone(),
        });
        let stop = log.stop_step == Some(log.step.len());
        log.stopped |= stop;
        Ok(stop)
    });
}

fn dense_logged<'a>(out: &mut Output<'a, Log>) {
    out.set_dense_callback(|stats: &Stats, h, x, y: &Vector, log: &mut Log| -> Result<bool, StrError> {
        if log.stopped {
            log.late += 1;
        }
        log.dense.push(Call {
            accepted: stats.n_accepted,
            h,
            x,
            y: y.as_data().clone(),
        });
        let stop = log.stop_dense == Some(log.dense.len());
        log.stopped |= stop;
        Ok(stop)
    });
}

/// The recorded arrays are what the callback saw
fn same_as_calls(what: &str, calls: &[Call], x: &[f64], ys: &[(usize, &Vec<f64>)]) -> Outcome {
    ensure!(x.len() == calls.len(), "{what}: {} stations recorded, the callback saw {}", x.len(), calls.len());
    for (k, c) in calls.iter().enumerate() {
        ensure!(near(x[k], c.x, 1e-13 * (1.0 + c.x.abs())), "{what} {k}: x = {} recorded, the callback saw {}", x[k], c.x);
        for (m, y) in ys {
            ensure!(y.len() == calls.len(), "{what}: {} values recorded, the callback saw {}", y.len(), calls.len());
            ensure!(y[k].to_bits() == c.y[*m].to_bits(), "{what} {k}: y{m} = {} recorded, the callback saw {}", y[k], c.y[*m]);
        }
    }
    Ok(())
}

/// Step output of all methods
fn steps(run: &mut Run) {
    let all = problems();
    run.section("steps", all.len() * ALL.len(), |ctx, item| {
        let (p, method) = (all[item / ALL.len()], ALL[item % ALL.len()]);
        if p.mass.is_some() && method != Method::Radau5 {
            return;
        }
        let (_, estimator) = orders(method);
        let n = p.dim();
        let tols: &[f64] = if ctx.thorough() { &[1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7] } else { &[1e-3, 1e-5] };
        for tol in tols {
            for equal in [None, Some(1), Some(7), Some(400)] {
                for selected in 0..pow(2, n.min(3)) {
                    for dense in [false, true] {
                        if (dense && !DENSE.contains(&method)) || (equal.is_none() && estimator == 0) {
                            continue;
                        }
                        ctx.case(format!("{}/{method:?}/{tol:e}/equal{equal:?}/selected{selected}/dense{dense}", p.name), |t| {
                            let h = equal.map(|k| (p.x1 - p.x0) / k as f64);
                            let picked: Vec<usize> = (0..n).filter(|i| selected >> i & 1 > 0).collect();
                            // without any output
                            let mut plain = OdeSolver::new(params(method, *tol), p.system(true))?;
                            let mut y_plain = Vector::from(&p.start());
                            let res_plain = guarded(|| plain.solve(&mut y_plain, p.x0, p.x1, h, &mut Log::default(), None))?;
                            // with output
                            let mut out = Output::new();
                            step_logged(&mut out);
                            out.set_step_recording(&picked);
                            out.set_yx_correct(move |y, x, _: &mut Log| {
                                for (i, v) in (p.sol)(x).iter().enumerate() {
                                    y[i] = *v;
                                }
                            });
                            if dense {
                                dense_logged(&mut out);
                                out.set_dense_h_out((p.x1 - p.x0) / 7.3)?;
                            }
                            let mut log = Log::default();
                            let mut solver = OdeSolver::new(params(method, *tol), p.system(true))?;
                            let mut y = Vector::from(&p.start());
                            let res = guarded(|| solver.solve(&mut y, p.x0, p.x1, h, &mut log, Some(&mut out)))?;
                            t.ops(log.step.len());
                            t.state_f64(y.as_data());
                            ensure!(res == res_plain, "result {:?} with output, {:?} without", res, res_plain);
                            let bits = |v: &Vector| v.as_data().iter().map(|x| x.to_bits()).collect::<Vec<_>>();
                            ensure!(bits(&y) == bits(&y_plain), "solution changes with output");
                            let (s, q) = (solver.stats(), plain.stats());
                            ensure!((s.n_steps, s.n_accepted, s.n_rejected) == (q.n_steps, q.n_accepted, q.n_rejected), "steps change with output");
                            let ys: Vec<(usize, &Vec<f64>)> = picked.iter().map(|m| (*m, out.step_y(*m))).collect();
                            same_as_calls("step", &log.step, out.step_x(), &ys)?;
                            for m in 0..n + 1 {
                                ensure!(picked.contains(&m) || out.step_y(m).is_empty(), "component {m} was not selected");
                            }
                            for (k, c) in log.step.iter().enumerate() {
                                ensure!(c.accepted == k, "step {k}: {} accepted steps", c.accepted);
                                ensure!(out.step_h()[k] == c.h, "step {k}: h = {} recorded, the callback saw {}", out.step_h()[k], c.h);
                                let error = c.y.iter().zip((p.sol)(c.x)).map(|(a, b)| (a - b).abs()).fold(0.0, f64::max);
                                ensure!(near(out.step_global_error()[k], error, 1e-15), "step {k}: global error = {}, it is {}", out.step_global_error()[k], error);
                            }
                            ensure!(out.step_h().len() == log.step.len() && out.step_global_error().len() == log.step.len(), "lengths of arrays");
                            ensure!(log.step[0].x == p.x0 && log.step[0].y == p.start(), "the initial point is not the first");
                            for k in 1..log.step.len() {
                                let (a, b) = (&log.step[k - 1], &log.step[k]);
                                ensure!(near(b.x - a.x, b.h, 1e-12 * (1.0 + b.x.abs())), "step {k}: from {} to {} with h = {}", a.x, b.x, b.h);
                                ensure!(b.x > a.x, "step {k}: from {} to {}", a.x, b.x);
                            }
                            if res.is_ok() {
                                ensure!(log.step.len() == s.n_accepted + 1, "{} points for {} accepted steps", log.step.len(), s.n_accepted);
                                let last = log.step.last().unwrap();
                                ensure!(near(last.x, p.x1, 1e-13 * (1.0 + p.x1.abs())), "last point at {} instead of {}", last.x, p.x1);
                                ensure!(&last.y == y.as_data(), "last point is not the result");
                            }
                            Ok(())
                        });
                    }
                }
            }
        }
    });
}

/// Stations wanted for a spacing
fn uniform(x0: f64, x1: f64, h: f64) -> Vec<f64> {
    let mut all = vec![x0];
    let mut i = 1;
    while x0 + i as f64 * h < x1 - 1e-6 * h {
        all.push(x0 + i as f64 * h);
        i += 1;
    }
    all.push(x1);
    all
}

/// Dense output: stations, values at steps, accuracy
fn dense(run: &mut Run) {
    let all = problems();
    let nd = DENSE.len();
    run.section("dense", all.len() * nd * 2, |ctx, item| {
        let (p, method, equal) = (all[item / nd / 2], DENSE[item / 2 % nd], item % 2 > 0);
        if p.mass.is_some() && method != Method::Radau5 {
            return;
        }
        let n = p.dim();
        let len = p.x1 - p.x0;
        // (name, spacing or stations)
        let mut requests: Vec<(String, Option<f64>, Vec<f64>)> = vec![];
        for k in [0.3, 0.9, 1.0, 1.1, 1.5, 2.0, 2.5, 3.0, 3.3, 4.0, 4.99, 7.0, 10.0, 10.5, 33.0, 100.0, 333.3] {
            requests.push((format!("spacing{k}"), Some(len / k), uniform(p.x0, p.x1, len / k)));
        }
        requests.push((format!("none"), None, vec![p.x0, p.x1]));
        // every subset of six stations
        let pool = [0.001, 0.25, 0.26, 0.5, 0.8, 0.999];
        for mask in 1..64 {
            let mut list = vec![p.x0];
            list.extend((0..6).filter(|i| mask >> i & 1 > 0).map(|i| p.x0 + pool[i] * len));
            list.push(p.x1);
            requests.push((format!("stations{mask}"), None, list));
        }
        let tols: &[f64] = if ctx.thorough() { &[1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 1e-8, 1e-9] } else { &[1e-4, 1e-6, 1e-8] };
        for tol in tols {
            let h = if equal { Some(len / 200.0) } else { None };
            for (name, spacing, want) in &requests {
                ctx.case(format!("{}/{method:?}/equal{equal}/{tol:e}/{name}", p.name), |t| {
                    let mut out = Output::new();
                    step_logged(&mut out);
                    dense_logged(&mut out);
                    out.set_dense_recording(&[0, n - 1]);
                    if let Some(s) = spacing {
                        out.set_dense_h_out(*s)?;
                    } else if want.len() > 2 {
                        out.set_dense_x_out(&want[1..want.len() - 1])?;
                    }
                    let mut log = Log::default();
                    let mut solver = OdeSolver::new(params(method, *tol), p.system(true))?;
                    let mut y = Vector::from(&p.start());
                    let res = guarded(|| solver.solve(&mut y, p.x0, p.x1, h, &mut log, Some(&mut out)))?;
                    t.ops(log.dense.len());
                    t.state_f64(y.as_data());
                    if res.is_err() {
                        // explicit methods may fail with stiff problems
                        ensure!(p.stiff && method != Method::Radau5, "{:?}", res);
                        t.trivial();
                        return Ok(());
                    }
                    ensure!(log.dense.len() == want.len(), "{} stations instead of {}: {:?}", log.dense.len(), want.len(), log.dense.iter().map(|c| c.x).take(8).collect::<Vec<_>>());
                    same_as_calls("dense", &log.dense, out.dense_x(), &[(0, out.dense_y(0)), (n - 1, out.dense_y(n - 1))])?;
                    // error of the steps themselves
                    let scale = |x: f64| 1.0 + (p.sol)(x).iter().fold(0.0f64, |a, b| a.max(b.abs()));
                    let error = |c: &Call| c.y.iter().zip((p.sol)(c.x)).map(|(a, b)| (a - b).abs() / scale(c.x)).fold(0.0, f64::max);
                    let base = log.step.iter().map(error).fold(0.0, f64::max);
                    for (k, c) in log.dense.iter().enumerate() {
                        ensure!(near(c.x, want[k], 1e-12 * len), "station {k} is {} instead of {}", c.x, want[k]);
                        if k > 0 {
                            ensure!(c.x > log.dense[k - 1].x, "stations {} and {} are not in order", log.dense[k - 1].x, c.x);
                        }
                        // the values at accepted steps
                        for s in &log.step {
                            if s.x == c.x {
                                compare(&format!("station {k} at an accepted step"), &Vector::from(&c.y), &s.y, 1e-12)?;
                            }
                        }
                        // the step that was interpolated is the one that contains the station
                        if k > 0 {
                            let j = c.accepted;
                            ensure!(j >= 1 && log.step[j - 1].x <= c.x + 1e-12 * len && c.x <= log.step[j].x + 1e-12 * len, "station {k} at {} taken with step {j}", c.x);
                        }
                        let e = error(c);
                        if !equal {
                            let factor = if method == Method::DoPri8 { 300.0 } else { 30.0 };
                            let interpolation = if method == Method::Radau5 && k > 0 { cubic(&p, log.step[c.accepted - 1].x, log.step[c.accepted].x) } else { 0.0 };
                            ensure!(e <= 10.0 * base + factor * tol + 2.0 * interpolation, "station {k} at {}: error {e:e}, error of steps {base:e}, tolerance {tol:e}", c.x);
                        }
                    }
                    ensure!(&log.dense.last().unwrap().y == y.as_data(), "last station is not the result");
                    Ok(())
                });
            }
        }
    });
}

/// Largest (scaled) difference between the solution and its interpolation at the nodes of Radau IIA in a step;
/// the collocation polynomial cannot be better than this
fn cubic(p: &Problem, a: f64, b: f64) -> f64 {
    let r = f64::sqrt(6.0);
    let nodes = [0.0, (4.0 - r) / 10.0, (4.0 + r) / 10.0, 1.0].map(|c| a + c * (b - a));
    let values = nodes.map(|x| (p.sol)(x));
    let mut largest = 0.0f64;
    for i in 1..40 {
        let x = a + (b - a) * i as f64 / 40.0;
        let sol = (p.sol)(x);
        let scale = 1.0 + sol.iter().fold(0.0f64, |a, b| a.max(b.abs()));
        for m in 0..sol.len() {
            let mut v = 0.0;
            for j in 0..4 {
                v += values[j][m] * (0..4).filter(|k| *k != j).map(|k| (x - nodes[k]) / (nodes[j] - nodes[k])).product::<f64>();
            }
            largest = largest.max((v - sol[m]).abs() / scale);
        }
    }
    largest
}

/// Within one step, dense output is exact for all elementary differentials up to its order
fn order(run: &mut Run) {
    let nd = DENSE.len();
    run.section("dense-order", nd, |ctx, item| {
        let method = DENSE[item];
        // orders of the continuous extensions: Hairer, Norsett, Wanner (II.6); collocation
        let top = match method {
            Method::DoPri5 => 4,
            Method::DoPri8 => 7,
            _ => 3,
        };
        for (index, tree) in trees(top).into_iter().enumerate() {
            let n = tree.len();
            // trees that need the slope at the end of the step (order six: two single branches at the root)
            let single = |i: usize| tree[i].len() == 1;
            let twice = |i: usize| single(i) && n - i >= 5;
            let needs = (n == 6 && single(0) && single(1)) || (n == 7 && (single(0) || (tree[0].len() == 2 && tree[0].iter().any(|c| tree[*c].is_empty()) && tree[0].iter().any(|c| single(*c) && twice(*c)))));
            let class = if needs { "end-slope/" } else { "" };
            let tree = Arc::new(tree);
            for explicit in [false, true] {
                for steps in [1, 2, 3] {
                    for which in 0..3 {
                        ctx.case(format!("{method:?}/{class}tree{index}/explicit{explicit}/steps{steps}/start{which}"), |t| {
                            let start: Vec<f64> = (0..n).map(|i| [0.0, 1.0, 0.25 * (i + 1) as f64][which]).collect();
                            // with explicit leaves, they are x
                            let mut start = start;
                            if explicit {
                                for i in 0..n {
                                    if tree[i].is_empty() {
                                        start[i] = 0.0;
                                    }
                                }
                            }
                            let mut out = Output::new();
                            dense_logged(&mut out);
                            let stations: Vec<f64> = (1..40).map(|i| i as f64 / 40.0).collect();
                            out.set_dense_x_out(&stations)?;
                            let mut log = Log::default();
                            let system: System<Log> = tree_system(tree.clone(), explicit, true);
                            let mut solver = OdeSolver::new(strict(method), system)?;
                            let mut y = Vector::from(&start);
                            guarded(|| solver.solve(&mut y, 0.0, 1.0, Some(1.0 / steps as f64), &mut log, Some(&mut out)))??;
                            t.ops(log.dense.len());
                            t.state_f64(y.as_data());
                            let tol = if method == Method::Radau5 { 1e-9 } else { 1e-12 };
                            for c in &log.dense {
                                compare(&format!("at {}", c.x), &Vector::from(&c.y), &tree_solution(&tree, &start, c.x), tol)?;
                            }
                            Ok(())
                        });
                    }
                }
            }
        }
    });
}

/// Stations at accepted steps and next to them
fn neighbours(run: &mut Run) {
    let all = problems();
    let nd = DENSE.len();
    run.section("neighbours", all.len() * nd * 3, |ctx, item| {
        let (p, method, mode) = (all[item / nd / 3], DENSE[item / 3 % nd], item % 3);
        if p.mass.is_some() && method != Method::Radau5 {
            return;
        }
        let h = [None, Some((p.x1 - p.x0) / 30.0), Some((p.x1 - p.x0) / 1000.0)][mode];
        let tol = 1e-5;
        // the steps without dense output
        let mut out = Output::new();
        step_logged(&mut out);
        let mut log = Log::default();
        let Ok(mut solver) = OdeSolver::new(params(method, tol), p.system(true)) else { return };
        let mut y = Vector::from(&p.start());
        if !matches!(guarded(|| solver.solve(&mut y, p.x0, p.x1, h, &mut log, Some(&mut out))), Ok(Ok(()))) {
            return;
        }
        let steps = log.step.clone();
        let m = steps.len();
        let (first, last) = if p.dim() > 5 { (8, 4) } else { (60, 30) };
        let limit = if ctx.thorough() { m } else { m.min(first) };
        for k in (0..limit).chain(limit.max(m.saturating_sub(last))..m) {
            for shift in [-8i64, -2, -1, 0, 1, 2, 8] {
                let x = f64::from_bits((steps[k].x.to_bits() as i64 + if steps[k].x < 0.0 { -shift } else { shift }) as u64);
                if !(x > p.x0 && x < p.x1) {
                    continue;
                }
                ctx.case(format!("{}/{method:?}/mode{mode}/step{k}/shift{shift}", p.name), |t| {
                    let mut out = Output::new();
                    dense_logged(&mut out);
                    out.set_dense_x_out(&[x])?;
                    let mut log = Log::default();
                    let mut solver = OdeSolver::new(params(method, tol), p.system(true))?;
                    let mut y = Vector::from(&p.start());
                    guarded(|| solver.solve(&mut y, p.x0, p.x1, h, &mut log, Some(&mut out)))??;
                    t.op();
                    t.state_f64(&log.dense[1].y);
                    ensure!(log.dense.len() == 3, "{} stations", log.dense.len());
                    ensure!(log.dense[1].x == x, "station at {}", log.dense[1].x);
                    // rates may be large, thus the value moves a little
                    let rate = (p.f)(steps[k].x, &steps[k].y).iter().fold(1.0f64, |a, b| a.max(b.abs()));
                    compare("value", &Vector::from(&log.dense[1].y), &steps[k].y, 1e-11 * rate)
                });
            }
        }
    });
}

/// A callback that wants to stop
fn stops(run: &mut Run) {
    let all = problems();
    run.section("stops", all.len() * ALL.len() * 2, |ctx, item| {
        let (p, method, equal) = (all[item / ALL.len() / 2], ALL[item / 2 % ALL.len()], item % 2 > 0);
        let (_, estimator) = orders(method);
        if (p.mass.is_some() && method != Method::Radau5) || (!equal && estimator == 0) {
            return;
        }
        let n = p.dim();
        let with_dense = DENSE.contains(&method);
        let h = if equal { Some((p.x1 - p.x0) / 23.0) } else { None };
        let solve = |stop_step: Option<usize>, stop_dense: Option<usize>| -> Result<(Result<(), StrError>, Log, Vec<f64>, Vec<f64>, Vec<f64>, Vec<f64>, Vec<f64>, [usize; 3]), String> {
            let mut out = Output::new();
            step_logged(&mut out);
            out.set_step_recording(&[0, n - 1]);
            if with_dense {
                dense_logged(&mut out);
                out.set_dense_h_out((p.x1 - p.x0) / 17.0)?.set_dense_recording(&[n - 1]);
            }
            let mut log = Log::default();
            log.stop_step = stop_step;
            log.stop_dense = stop_dense;
            let mut solver = OdeSolver::new(params(method, 1e-5), p.system(true))?;
            let mut y = Vector::from(&p.start());
            let res = guarded(|| solver.solve(&mut y, p.x0, p.x1, h, &mut log, Some(&mut out)))?;
            let s = solver.stats();
            let c = [s.n_steps, s.n_accepted, s.n_function];
            Ok((res, log, y.as_data().clone(), out.step_x().clone(), out.step_y(n - 1).clone(), out.dense_x().clone(), out.dense_y(n - 1).clone(), c))
        };
        let Ok((Ok(()), full, _, _, _, _, _, _)) = solve(None, None) else { return };
        let deep = ctx.thorough();
        let count = |m: usize| if deep || m <= 60 { (1..=m).collect::<Vec<_>>() } else { (1..=50).chain(m - 5..=m).collect() };
        for k in count(full.step.len()) {
            ctx.case(format!("{}/{method:?}/equal{equal}/step{k}", p.name), |t| {
                let (res, log, y, x, v, dx, dy, c) = solve(Some(k), None)?;
                t.ops(k);
                t.state_f64(&y);
                ensure!(res.is_ok(), "{:?}", res);
                ensure!(log.late == 0, "{} callback calls after the stop", log.late);
                ensure!(log.step == full.step[..k], "steps until the stop are not the ones of the full run");
                ensure!(c[1] == k - 1, "{} accepted steps, stopped at the output {k}", c[1]);
                ensure!(y == full.step[k - 1].y, "result is not the point of the stop");
                same_as_calls("step", &log.step, &x, &[(n - 1, &v)])?;
                let d = log.dense.len();
                ensure!(log.dense == full.dense[..d], "dense output until the stop is not the one of the full run");
                if with_dense {
                    same_as_calls("dense", &log.dense, &dx[..d], &[(n - 1, &dy[..d].to_vec())])?;
                }
                // all stations before the previous accepted step were visited
                if k > 1 && with_dense {
                    let all = full.dense.iter().filter(|c| c.accepted < k - 1).count();
                    ensure!(d >= all, "{d} stations visited instead of {all}");
                }
                Ok(())
            });
        }
        for k in count(full.dense.len()) {
            ctx.case(format!("{}/{method:?}/equal{equal}/station{k}", p.name), |t| {
                let (res, log, y, x, v, dx, dy, c) = solve(None, Some(k))?;
                t.ops(k);
                t.state_f64(&y);
                ensure!(res.is_ok(), "{:?}", res);
                ensure!(log.late == 0, "{} callback calls after the stop", log.late);
                ensure!(log.dense == full.dense[..k], "stations until the stop are not the ones of the full run");
                ensure!(log.step.len() == full.dense[k - 1].accepted + 1 && log.step == full.step[..log.step.len()], "steps until the stop are not the ones of the full run");
                ensure!(c[1] == log.step.len() - 1, "{} accepted steps, {} seen", c[1], log.step.len() - 1);
                ensure!(y == log.step.last().unwrap().y, "result is not the last accepted step");
                same_as_calls("step", &log.step, &x, &[(n - 1, &v)])?;
                same_as_calls("dense", &log.dense, &dx[..k], &[(n - 1, &dy[..k].to_vec())])
            });
        }
    });
}

/// Files have the data given to the callbacks; the same output may be used again
fn files(run: &mut Run) {
    let all = problems();
    let nd = DENSE.len();
    let dir = scratch();
    run.section("files", all.len() * nd * 2, |ctx, item| {
        let (p, method, equal) = (all[item / nd / 2], DENSE[item / 2 % nd], item % 2 > 0);
        if p.mass.is_some() && method != Method::Radau5 {
            return;
        }
        for tol in [1e-3, 1e-6] {
            for stop in [None, Some(1), Some(2), Some(5)] {
                ctx.case(format!("{}/{method:?}/equal{equal}/{tol:e}/stop{stop:?}", p.name), |t| {
                    let here = format!("{dir}/o04_{item}_{tol:e}_{stop:?}");
                    let _ = std::fs::remove_dir_all(&here);
                    let (step_key, dense_key) = (format!("{here}/a/step"), format!("{here}/b/dense"));
                    let mut out = Output::new();
                    step_logged(&mut out);
                    dense_logged(&mut out);
                    out.set_step_file_writing(&step_key);
                    out.set_dense_h_out((p.x1 - p.x0) / 6.5)?.set_dense_file_writing(&dense_key)?;
                    let mut solver = OdeSolver::new(params(method, tol), p.system(true))?;
                    let h = if equal { Some((p.x1 - p.x0) / 11.0) } else { None };
                    let mut outcome = Ok(());
                    for round in 0..2 {
                        let mut log = Log::default();
                        log.stop_step = stop;
                        let mut y = Vector::from(&p.start());
                        let x1 = if round == 0 { p.x1 } else { p.x0 + 0.5 * (p.x1 - p.x0) };
                        let res = guarded(|| solver.solve(&mut y, p.x0, x1, h, &mut log, Some(&mut out)))?;
                        t.ops(log.step.len() + log.dense.len());
                        t.state_f64(y.as_data());
                        if res.is_err() {
                            break;
                        }
                        outcome = (|| -> Outcome {
                            for (key, calls) in [(&step_key, &log.step), (&dense_key, &log.dense)] {
                                let count = OutCount::read_json(&format!("{key}_count.json"))?;
                                ensure!(count.n == calls.len(), "round {round}: {} files counted, the callback was called {} times", count.n, calls.len());
                                for (k, c) in calls.iter().enumerate() {
                                    let d = OutData::read_json(&format!("{key}_{k}.json"))?;
                                    // numbers are read with an error of one ulp
                                    let same = |a: f64, b: f64| near(a, b, 1e-15 * b.abs());
                                    ensure!(same(d.h, c.h) && same(d.x, c.x) && d.y.dim() == c.y.len() && (0..d.y.dim()).all(|i| same(d.y[i], c.y[i])), "round {round}: file {k} has other data");
                                }
                                if round == 0 {
                                    ensure!(OutData::read_json(&format!("{key}_{}.json", calls.len())).is_err(), "more files than calls");
                                }
                            }
                            Ok(())
                        })();
                        if outcome.is_err() {
                            break;
                        }
                    }
                    let _ = std::fs::remove_dir_all(&here);
                    outcome
                });
            }
        }
    });
}

/// Requests that cannot be satisfied are refused
fn refused(run: &mut Run) {
    run.section("refused requests", ALL.len(), |ctx, item| {
        let method = ALL[item];
        let p = problems()[0];
        let values = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -1.0, 0.0, 1e-3, p.x0, p.x1, p.x0 + 0.25 * (p.x1 - p.x0), p.x0 + 0.5 * (p.x1 - p.x0), p.x1 + 1.0, p.x0 - 1.0];
        let nv = values.len();
        for code in 0..nv + nv * nv + nv * nv * nv {
            let list: Vec<f64> = if code < nv {
                digits(code, nv, 1).iter().map(|i| values[*i]).collect()
            } else if code < nv + nv * nv {
                digits(code - nv, nv, 2).iter().map(|i| values[*i]).collect()
            } else {
                digits(code - nv - nv * nv, nv, 3).iter().map(|i| values[*i]).collect()
            };
            ctx.case(format!("{method:?}/{list:?}"), |t| {
                let mut out = Output::new();
                dense_logged(&mut out);
                let mut good = list.windows(2).all(|w| w[1] - w[0] > 1e-6);
                good = good && list.iter().all(|x| *x > p.x0 && *x < p.x1) && DENSE.contains(&method);
                let mut ok = out.set_dense_x_out(&list).is_ok();
                let mut log = Log::default();
                if ok {
                    let mut solver = OdeSolver::new(params(method, 1e-4), p.system(true))?;
                    let mut y = Vector::from(&p.start());
                    let h = if orders(method).1 == 0 { Some((p.x1 - p.x0) / 10.0) } else { None };
                    ok = guarded(|| solver.solve(&mut y, p.x0, p.x1, h, &mut log, Some(&mut out)))?.is_ok();
                }
                t.op();
                t.state(&(item, code, ok));
                ensure!(ok == good, "stations {list:?}: accepted = {ok}");
                if ok {
                    let x: Vec<f64> = log.dense.iter().map(|c| c.x).collect();
                    ensure!(x.len() == list.len() + 2 && x[1..x.len() - 1] == list[..], "stations {x:?}");
                } else {
                    ensure!(log.dense.is_empty(), "output before the request was refused");
                }
                Ok(())
            });
        }
        for h in [f64::NAN, f64::NEG_INFINITY, -1.0, 0.0, 1e-16] {
            ctx.case(format!("{method:?}/spacing {h}"), |t| {
                t.op();
                let mut out: Output<Log> = Output::new();
                ensure!(out.set_dense_h_out(h).is_err(), "spacing {h} is accepted");
                Ok(())
            });
        }
    });
}

/// Systems made of many copies of a problem: every component of the output is that of its copy
fn dense_copies(run: &mut Run) {
    let all = problems();
    run.section("dense output of copies", all.len() * DENSE.len(), |ctx, item| {
        let (p, method) = (all[item / DENSE.len()], DENSE[item % DENSE.len()]);
        if (p.mass.is_some() || p.stiff) && method != Method::Radau5 {
            return;
        }
        for c in [2, 5, 9, 17, 33] {
            for tol in [1e-4, 1e-6] {
                ctx.case(format!("{}/{method:?}/{c} copies/{tol:e}", p.name), |t| {
                    let n = p.dim() * c;
                    let mut y = Vector::initialized(n, |i| p.start()[i / c]);
                    let every: Vec<usize> = (0..n).collect();
                    let mut out = Output::new();
                    out.set_dense_h_out((p.x1 - p.x0) / 7.3)?.set_dense_recording(&every).set_step_recording(&every);
                    let mut solver = OdeSolver::new(params(method, tol), p.copies::<Log>(c, true))?;
                    solver.solve(&mut y, p.x0, p.x1, None, &mut Log::default(), Some(&mut out))?;
                    t.ops(out.dense_x().len() + out.step_x().len());
                    t.state_f64(y.as_data());
                    for i in 0..n {
                        let first = i / c * c;
                        for (name, a, b) in [("dense", out.dense_y(i), out.dense_y(first)), ("step", out.step_y(i), out.step_y(first))] {
                            ensure!(a.len() == b.len(), "{name} output of component {i}: {} values, {} of the first copy", a.len(), b.len());
                            for k in 0..a.len() {
                                ensure!((a[k] - b[k]).abs() <= 1e-3 * tol * (1.0 + b[k].abs()), "{name} output {k} of component {i} is {}, that of the first copy is {}", a[k], b[k]);
                            }
                        }
                    }
                    Ok(())
                });
            }
        }
    });
}

pub fn run(run: &mut Run) {
    run.level("exploration", "every method, problem, spacing or set of stations, recording option and stop position in the bounds, with the callbacks' log as the record of what happened");
    run.assume("closed-form problems; error between steps compared with ten times the error of the steps plus a multiple of the tolerance");
    run.assume("values of stations that were not reached when a run is stopped are not judged");
    steps(run);
    dense(run);
    order(run);
    neighbours(run);
    stops(run);
    files(run);
    refused(run);
    dense_copies(run);
}
