//! O07: parameters are refused exactly outside of their ranges, matrices written on request are the ones in use, and
//! the sample problems are what they say

use mc::*;
use russell_lab::math::PI;
use russell_lab::Vector;
use russell_ode::{Method, OdeSolver, Output, Params, Samples, System};
use russell_sparse::{read_matrix_market, CooMatrix, Genie, MMsym, Sym};

pub fn run(r: &mut Run) {
    r.level("exploration", "all methods x ordered pairs of parameters at and next to the ends of their ranges; all numbers of steps before the matrices are written; every sample problem x start on a lattice against a twin written from its documentation");
    r.assume("the matrices in the files are those of the step about to be done; values up to 1e-14 are not written");
    parameters(r);
    odd_parameters(r);
    tolerances(r);
    systems(r);
    matrix_files(r);
    samples(r);
    solutions(r);
}

/// The matrices of a system have one kind of symmetry and the documented number of entries, a mass matrix needs Radau5,
/// and a start of the wrong length is refused before any function is called
fn systems(r: &mut Run) {
    let syms = [Sym::No, Sym::YesFull, Sym::YesLower, Sym::YesUpper];
    let methods = Method::erk_methods().into_iter().chain([Method::Radau5, Method::BwEuler, Method::FwEuler]).collect::<Vec<_>>();
    r.section("systems", 4 * 16 * 9, |ctx, it| {
        let (ndim, s1, s2, k) = (1 + it / 144, syms[it / 36 % 4], syms[it / 9 % 4], it % 9);
        let nnz = |k: usize| if k == 0 { None } else { Some(k + ndim) };
        let (n1, n2) = (nnz(k / 3), nnz(k % 3));
        let entries = |n: Option<usize>, s: Sym| n.unwrap_or(if s == Sym::YesLower || s == Sym::YesUpper { ndim * (ndim + 1) / 2 } else { ndim * ndim });
        let make = |order: usize| -> Result<(System<usize>, bool, bool), String> {
            let mut s = System::new(ndim, move |f: &mut Vector, _: f64, y: &Vector, calls: &mut usize| {
                *calls += 1;
                for i in 0..ndim {
                    f[i] = -y[i];
                }
                Ok(())
            });
            let jac = |jj: &mut CooMatrix, m: f64, _: f64, _: &Vector, calls: &mut usize| {
                *calls += 1;
                jj.reset();
                for i in 0..jj.get_info().0 {
                    jj.put(i, i, -m)?;
                }
                Ok(())
            };
            let mass = |mm: &mut CooMatrix| {
                for i in 0..mm.get_info().0 {
                    mm.put(i, i, 1.0).unwrap();
                }
            };
            let (mut a, mut b) = (false, false);
            // 0: nothing, 1: Jacobian, 2: mass, 3: both, 4: both in the other order, 5 and 6: a second try with the right kind
            for step in [&[][..], &[0], &[1], &[0, 1], &[1, 0], &[0, 1, 2], &[1, 0, 3]][order] {
                match step {
                    0 | 3 => a = s.set_jacobian(n1, if *step == 3 { s2 } else { s1 }, jac).is_ok() || a,
                    _ => b = s.set_mass(n2, if *step == 2 { s1 } else { s2 }, mass).is_ok() || b,
                }
            }
            Ok((s, a, b))
        };
        for order in 0..7 {
            ctx.case(format!("ndim={ndim}/{s1:?}/{s2:?}/{n1:?}/{n2:?}/order {order}"), |t| {
                t.op();
                let (s, a, b) = make(order)?;
                let same = s1 == s2;
                let want = [(false, false), (true, false), (false, true), (true, same), (same, true), (true, true), (true, true)][order];
                ensure!((a, b) == want, "accepted {:?} instead of {want:?}", (a, b));
                ensure!(s.get_ndim() == ndim, "{} equations", s.get_ndim());
                // kind of symmetry in use
                let (k1, k2) = match order {
                    5 => (s1, s1),
                    6 => (s2, s2),
                    _ => (s1, s2),
                };
                let (j, m) = (if a { entries(n1, k1) } else { ndim * ndim }, if b { entries(n2, k2) } else { 0 });
                ensure!(s.get_jac_nnz() == j && s.get_mass_nnz() == m, "{} and {} entries instead of {j} and {m}", s.get_jac_nnz(), s.get_mass_nnz());
                let c = s.clone();
                ensure!((c.get_ndim(), c.get_jac_nnz(), c.get_mass_nnz()) == (ndim, j, m), "the copy has {} {} {}", c.get_ndim(), c.get_jac_nnz(), c.get_mass_nnz());
                for method in &methods {
                    t.op();
                    let solver = OdeSolver::new(Params::new(*method), s.clone());
                    ensure!(solver.is_ok() == (!b || *method == Method::Radau5), "{method:?}: solver created = {}, mass matrix = {b}", solver.is_ok());
                    let Ok(mut solver) = solver else { continue };
                    for len in (0..ndim + 3).filter(|len| *len != ndim) {
                        let (mut y, mut calls) = (Vector::filled(len, 2.0), 0);
                        let res = guarded(|| solver.solve(&mut y, 0.0, 1.0, Some(0.5), &mut calls, None))?;
                        ensure!(res.is_err() && calls == 0, "{method:?}: {len} values at the start: {res:?} after {calls} calls");
                        ensure!(y.as_data().iter().all(|v| *v == 2.0), "the refused start has changed");
                    }
                }
                t.state(&(order, ndim, j, m, a, b));
                Ok(())
            });
        }
    });
}

/// A parameter, a value and whether the value alone is within the documented range
type Value = (&'static str, f64, bool);

fn set(p: &mut Params, name: &str, v: f64) {
    match name {
        "n_iteration_max" => p.newton.n_iteration_max = v as usize,
        "m_min" => p.step.m_min = v,
        "m_max" => p.step.m_max = v,
        "m_safety" => p.step.m_safety = v,
        "m_first_reject" => p.step.m_first_reject = v,
        "h_ini" => p.step.h_ini = v,
        "n_step_max" => p.step.n_step_max = v as usize,
        "rel_error_prev_min" => p.step.rel_error_prev_min = v,
        "theta_max" => p.radau5.theta_max = v,
        "c1h" => p.radau5.c1h = v,
        "c2h" => p.radau5.c2h = v,
        "lund_beta" => p.erk.lund_beta = v,
        "lund_m" => p.erk.lund_m = v,
        _ => panic!("{}", name),
    }
}

fn values() -> Vec<Value> {
    vec![
        ("n_iteration_max", 0.0, false),
        ("n_iteration_max", 1.0, true),
        ("m_min", 0.0009, false),
        ("m_min", 0.001, true),
        ("m_min", 0.49, true),
        ("m_min", 0.51, false),
        ("m_min", -0.2, false),
        ("m_max", 0.009, false),
        ("m_max", 0.01, true),
        ("m_max", 0.45, true),
        ("m_max", 20.0, true),
        ("m_max", 20.1, false),
        ("m_safety", 0.09, false),
        ("m_safety", 0.1, true),
        ("m_safety", 1.0, true),
        ("m_safety", 1.01, false),
        ("m_first_reject", -0.01, false),
        ("m_first_reject", 0.0, true),
        ("m_first_reject", 0.7, true),
        ("h_ini", 0.9e-8, false),
        ("h_ini", 1e-8, true),
        ("h_ini", -1.0, false),
        ("h_ini", 0.5, true),
        ("n_step_max", 0.0, false),
        ("n_step_max", 1.0, true),
        ("rel_error_prev_min", 0.9e-8, false),
        ("rel_error_prev_min", 1e-8, true),
        ("rel_error_prev_min", 0.5, true),
        ("theta_max", 0.9e-7, false),
        ("theta_max", 1e-7, true),
        ("theta_max", 0.5, true),
        ("c1h", 0.49, false),
        ("c1h", 0.5, true),
        ("c1h", 1.4, true),
        ("c1h", 1.51, false),
        ("c2h", 0.99, false),
        ("c2h", 1.05, true),
        ("c2h", 1.3, true),
        ("c2h", 2.0, true),
        ("c2h", 2.01, false),
        ("lund_beta", -0.01, false),
        ("lund_beta", 0.0, true),
        ("lund_beta", 0.1, true),
        ("lund_beta", 0.11, false),
        ("lund_m", -0.01, false),
        ("lund_m", 0.0, true),
        ("lund_m", 1.0, true),
        ("lund_m", 1.01, false),
    ]
}

fn decay<'a>() -> System<'a, u8> {
    System::new(1, |f: &mut Vector, _x: f64, y: &Vector, _: &mut u8| {
        f[0] = -y[0];
        Ok(())
    })
}

fn methods() -> Vec<Method> {
    let mut m = vec![Method::Radau5, Method::BwEuler, Method::FwEuler];
    m.extend(Method::erk_methods());
    m.dedup();
    m
}

/// Ordered pairs of settings: a new solver and an update of the parameters give the same verdict
fn parameters(r: &mut Run) {
    let all = values();
    let methods = methods();
    r.section("parameters", methods.len() * all.len(), |ctx, it| {
        let (method, a) = (methods[it / all.len()], it % all.len());
        for b in 0..all.len() {
            ctx.case(format!("{:?}/{:?}/{:?}", method, all[a], all[b]), |t| {
                t.ops(3);
                t.state(&(a, b));
                let mut p = Params::new(method);
                let mut ok = true;
                set(&mut p, all[a].0, all[a].1);
                set(&mut p, all[b].0, all[b].1);
                for k in [a, b] {
                    if k == b || all[a].0 != all[b].0 {
                        ok &= all[k].2;
                    }
                }
                ok &= p.step.m_min < p.step.m_max && p.radau5.c1h < p.radau5.c2h;
                let made = OdeSolver::new(p, decay());
                ensure!(made.is_ok() == ok, "a solver with these values: {:?}", made.err());
                let mut s = OdeSolver::new(Params::new(method), decay())?;
                let res = s.update_params(p);
                ensure!(res.is_ok() == ok, "an update with these values: {:?}", res);
                // the method is fixed
                let other = if method == Method::Radau5 { Method::BwEuler } else { Method::Radau5 };
                ensure!(s.update_params(Params::new(other)).is_err(), "the method was changed");
                // after a refusal the previous values are still in use
                let mut y = Vector::from(&[1.0]);
                if !ok {
                    s.solve(&mut y, 0.0, 0.25, if method.information().embedded { None } else { Some(0.125) }, &mut 0, None)?;
                    let mut fresh = OdeSolver::new(Params::new(method), decay())?;
                    let mut z = Vector::from(&[1.0]);
                    fresh.solve(&mut z, 0.0, 0.25, if method.information().embedded { None } else { Some(0.125) }, &mut 0, None)?;
                    ensure!(y[0].to_bits() == z[0].to_bits(), "{} instead of {}", y[0], z[0]);
                }
                Ok(())
            });
        }
    });
}

/// Values that are no numbers are refused or do no harm
fn odd_parameters(r: &mut Run) {
    let methods = methods();
    let names = ["m_min", "m_max", "m_safety", "m_first_reject", "h_ini", "rel_error_prev_min", "theta_max", "c1h", "c2h", "lund_beta", "lund_m"];
    r.section("odd parameters", methods.len() * names.len(), |ctx, it| {
        let (method, name) = (methods[it / names.len()], names[it % names.len()]);
        for v in [f64::NAN, f64::INFINITY, f64::NEG_INFINITY] {
            for equal in [false, true] {
                ctx.case(format!("{:?}/{}={}/equal={}", method, name, v, equal), |t| {
                    t.ops(2);
                    let mut p = Params::new(method);
                    p.step.n_step_max = 2000;
                    set(&mut p, name, v);
                    let Ok(mut s) = OdeSolver::new(p, decay()) else { return Ok(()) };
                    let mut y = Vector::from(&[1.0]);
                    let res = guarded(|| s.solve(&mut y, 0.0, 1.0, if equal { Some(0.015625) } else { None }, &mut 0, None));
                    t.state_f64(&[y[0]]);
                    match res {
                        Err(e) => fail!("panic: {}", e),
                        Ok(Err(_)) => Ok(()),
                        Ok(Ok(())) => {
                            ensure!((y[0] - f64::exp(-1.0)).abs() < 0.03, "success with {}", y[0]);
                            Ok(())
                        }
                    }
                });
            }
        }
    });
}

/// Tolerances are accepted exactly above ten times the machine precision, and refused ones change nothing
fn tolerances(r: &mut Run) {
    let methods = methods();
    let eps = 10.0 * f64::EPSILON;
    let list = [0.0, -1.0, eps, eps * (1.0 + 1e-12), 1e-12, 1e-6, 1e-3, 0.5];
    r.section("tolerances", methods.len(), |ctx, k| {
        let method = methods[k];
        for a in list {
            for b in list {
                for newton in [None, Some(1e-3)] {
                    ctx.case(format!("{:?}/{}/{}/{:?}", method, a, b, newton), |t| {
                        t.ops(1);
                        t.state_f64(&[a, b]);
                        let mut p = Params::new(method);
                        let before = p;
                        let res = p.set_tolerances(a, b, newton);
                        let ok = a > eps && b > eps;
                        ensure!(res.is_ok() == ok, "tolerances {} and {}: {:?}", a, b, res);
                        if ok {
                            return Ok(());
                        }
                        let mut ends = vec![];
                        for p in [before, p] {
                            let mut s = OdeSolver::new(p, decay())?;
                            let mut y = Vector::from(&[1.0]);
                            s.solve(&mut y, 0.0, 0.25, None, &mut 0, None)?;
                            ends.push((y[0].to_bits(), s.stats().n_steps));
                        }
                        ensure!(ends[0] == ends[1], "refused tolerances are used");
                        Ok(())
                    });
                }
            }
        }
    });
}

/// A problem written down from its documentation
struct Twin {
    name: String,
    n: usize,
    f: Box<dyn Fn(f64, &[f64]) -> Vec<f64> + Send + Sync>,
    jac: Box<dyn Fn(f64, &[f64]) -> Vec<Vec<f64>> + Send + Sync>,
    mass: Option<Vec<Vec<f64>>>,
    states: Vec<Vec<f64>>,
    xs: Vec<f64>,
    h: f64,
}

/// Points seen and Jacobians asked for
#[derive(Default)]
struct Seen {
    jac: Vec<(f64, Vec<f64>)>,
}

impl Twin {
    fn system(&self) -> System<'_, Seen> {
        let mut s = System::new(self.n, |f: &mut Vector, x: f64, y: &Vector, _: &mut Seen| {
            for (i, v) in (self.f)(x, y.as_data()).iter().enumerate() {
                f[i] = *v;
            }
            Ok(())
        });
        s.set_jacobian(None, Sym::No, |jj: &mut CooMatrix, alpha: f64, x: f64, y: &Vector, seen: &mut Seen| {
            seen.jac.push((x, y.as_data().clone()));
            jj.reset();
            for (i, row) in (self.jac)(x, y.as_data()).iter().enumerate() {
                for (j, v) in row.iter().enumerate() {
                    jj.put(i, j, alpha * v)?;
                }
            }
            Ok(())
        })
        .unwrap();
        if let Some(m) = &self.mass {
            s.set_mass(None, Sym::No, |mm: &mut CooMatrix| {
                for (i, row) in m.iter().enumerate() {
                    for (j, v) in row.iter().enumerate() {
                        mm.put(i, j, *v).unwrap();
                    }
                }
            })
            .unwrap();
        }
        s
    }
    fn mass_entry(&self, i: usize, j: usize) -> f64 {
        match &self.mass {
            Some(m) => m[i][j],
            None => (i == j) as usize as f64,
        }
    }
}

/// The matrices in the files, which are removed
struct Files {
    jac: Option<Vec<Vec<f64>>>,
    real: Option<Vec<Vec<f64>>>,
    comp: Option<Vec<Vec<(f64, f64)>>>,
    any: bool,
}

const DIR: &str = "/tmp/russell_ode";
/// Files that are there already, put back in the end
struct Keep(Vec<(String, Vec<u8>)>);

impl Keep {
    fn new() -> Keep {
        let path = |f: &str| format!("{}/{}", DIR, f);
        let keep = Keep(NAMES.iter().filter_map(|f| Some((path(f), std::fs::read(path(f)).ok()?))).collect());
        let _ = take_files(1);
        keep
    }
}

impl Drop for Keep {
    fn drop(&mut self) {
        let _ = take_files(1);
        for (path, data) in &self.0 {
            let _ = std::fs::write(path, data);
        }
        // only when empty
        let _ = std::fs::remove_dir(DIR);
    }
}

const NAMES: [&str; 6] = ["jacobian.mtx", "jacobian.smat", "kk_real.mtx", "kk_real.smat", "kk_comp.mtx", "kk_comp.smat"];

fn take_files(n: usize) -> Files {
    let real = |name: &str| -> Option<Vec<Vec<f64>>> {
        let (Some(coo), None) = read_matrix_market(&format!("{}/{}", DIR, name), MMsym::LeaveAsLower).ok()? else { return None };
        let d = coo.as_dense();
        if d.dims() != (n, n) {
            return None;
        }
        Some((0..n).map(|i| (0..n).map(|j| d.get(i, j)).collect()).collect())
    };
    let comp = || -> Option<Vec<Vec<(f64, f64)>>> {
        let (None, Some(coo)) = read_matrix_market(&format!("{}/kk_comp.mtx", DIR), MMsym::LeaveAsLower).ok()? else { return None };
        let d = coo.as_dense();
        if d.dims() != (n, n) {
            return None;
        }
        Some((0..n).map(|i| (0..n).map(|j| (d.get(i, j).re, d.get(i, j).im)).collect()).collect())
    };
    let any = NAMES.iter().any(|f| std::path::Path::new(&format!("{}/{}", DIR, f)).exists());
    let files = Files { jac: real("jacobian.mtx"), real: real("kk_real.mtx"), comp: comp(), any };
    for f in NAMES {
        let _ = std::fs::remove_file(format!("{}/{}", DIR, f));
    }
    files
}

/// Coefficients of the method
const ALPHA: f64 = 2.6810828736277521338957907432111121010270319565630;
const BETA: f64 = 3.0504301992474105694263776247875679044407041991795;
const GAMMA: f64 = 3.6378342527444957322084185135777757979459360868739;

/// The three matrices belong together: K = c/h M - J
fn together(twin: &Twin, jac: &[Vec<f64>], files: &Files, h: Option<f64>, tol: f64) -> Outcome {
    let (Some(j), Some(k), Some(c)) = (&files.jac, &files.real, &files.comp) else { fail!("a file is missing or not readable") };
    let n = twin.n;
    let size = jac.iter().flatten().fold(1.0, |m: f64, v| m.max(v.abs()));
    let mut hh = h;
    for a in 0..n {
        for b in 0..n {
            ensure!(near(j[a][b], jac[a][b], tol * size), "J[{}][{}] is {} instead of {}", a, b, j[a][b], jac[a][b]);
            let m = twin.mass_entry(a, b);
            if hh.is_none() && m != 0.0 {
                hh = Some(GAMMA * m / (k[a][b] + j[a][b]));
            }
        }
    }
    let Some(h) = hh else { fail!("no mass") };
    ensure!(h > 0.0 && h.is_finite(), "stepsize {}", h);
    for a in 0..n {
        for b in 0..n {
            let m = twin.mass_entry(a, b) / h;
            let scale = 1e-12 * (size + m.abs());
            ensure!(near(k[a][b], GAMMA * m - jac[a][b], scale + tol * size), "K_real[{}][{}] is {} instead of {}", a, b, k[a][b], GAMMA * m - jac[a][b]);
            let (re, im) = c[a][b];
            ensure!(near(re, ALPHA * m - jac[a][b], scale + tol * size) && near(im, BETA * m, scale), "K_comp[{}][{}] is {}+{}i instead of {}+{}i", a, b, re, im, ALPHA * m - jac[a][b], BETA * m);
        }
    }
    Ok(())
}

fn small_twins() -> Vec<Twin> {
    vec![
        Twin {
            name: "products".to_string(),
            n: 2,
            f: Box::new(|x, y| vec![-y[0] * y[1] + x, y[0] - 0.5 * y[1] * y[1]]),
            jac: Box::new(|_, y| vec![vec![-y[1], -y[0]], vec![1.0, -y[1]]]),
            mass: None,
            states: vec![vec![1.0, 2.0], vec![0.5, 0.25]],
            xs: vec![0.0],
            h: 0.125,
        },
        Twin {
            name: "mass".to_string(),
            n: 3,
            f: Box::new(|x, y| vec![-y[0] + y[1] * y[2], y[0] + y[1], 1.0 / (1.0 + x * x)]),
            jac: Box::new(|_, y| vec![vec![-1.0, y[2], y[1]], vec![1.0, 1.0, 0.0], vec![0.0, 0.0, 0.0]]),
            mass: Some(vec![vec![1.0, 1.0, 0.0], vec![1.0, -1.0, 0.0], vec![0.0, 0.0, 2.0]]),
            states: vec![vec![1.0, 0.0, 0.5], vec![-1.0, 0.5, 1.0]],
            xs: vec![0.0],
            h: 0.125,
        },
    ]
}

/// The matrices are written at the first factorization after the requested number of accepted steps, and the run ends
fn matrix_files(r: &mut Run) {
    let steps = r.pick(6, 12);
    r.section("matrix files", 1, |ctx, _| {
        let _keep = Keep::new();
        for twin in small_twins() {
            for (s, state) in twin.states.iter().enumerate() {
                for equal in [false, true] {
                    for nstep in 0..=steps {
                        for mode in 0..4 {
                            let (numerical, concurrent) = (mode & 1 == 1, mode & 2 == 2);
                            ctx.case(format!("{}/{}/equal={}/after{}/numerical={}/concurrent={}", twin.name, s, equal, nstep, numerical, concurrent), |t| {
                                let mut points: Vec<Vec<(f64, Vec<f64>, f64)>> = vec![vec![], vec![]];
                                let mut seen = [Seen::default(), Seen::default()];
                                let mut texts = vec![];
                                for k in 0..2 {
                                    let mut p = Params::new(Method::Radau5);
                                    p.step.h_ini = 0.01;
                                    p.newton.use_numerical_jacobian = numerical;
                                    p.radau5.concurrent = concurrent;
                                    p.newton.write_matrix_after_nstep_and_stop = if k == 1 { Some(nstep) } else { None };
                                    let mut solver = OdeSolver::new(p, twin.system())?;
                                    let list = std::sync::Arc::new(std::sync::Mutex::new(vec![]));
                                    let keep = list.clone();
                                    let mut out = Output::new();
                                    out.set_step_recording(&[0]).set_step_callback(move |stats, h, x, y, seen: &mut Seen| {
                                        keep.lock().unwrap().push((x, y.as_data().clone(), h, stats.n_accepted, seen.jac.len()));
                                        Ok(false)
                                    });
                                    let mut y = Vector::from(state);
                                    let res = guarded(|| solver.solve(&mut y, 0.0, 1.0, if equal { Some(twin.h) } else { None }, &mut seen[k], Some(&mut out)));
                                    texts.push(res.map_err(|e| format!("panic {}", e))?.err());
                                    points[k] = list.lock().unwrap().iter().map(|(x, y, h, _, _)| (*x, y.clone(), *h)).collect();
                                }
                                let files = take_files(twin.n);
                                t.ops(points[1].len());
                                for p in &points[1] {
                                    t.state_f64(&p.1);
                                }
                                ensure!(texts[0].is_none(), "the plain run ends with {:?}", texts[0]);
                                let done = points[1].len();
                                ensure!(done <= points[0].len() && points[0][..done] == points[1][..], "the option changes the steps");
                                if texts[1].is_none() {
                                    ensure!(!files.any, "files written without ending the run");
                                    ensure!(done == points[0].len(), "the run ends early without an error");
                                    // nothing was factorized later: no new Jacobian either
                                    let late = seen[0].jac.iter().any(|(x, _)| *x >= points[0].get(nstep + 1).map_or(f64::MAX, |p| p.0));
                                    ensure!(!late, "a Jacobian after {} accepted steps is not written", nstep);
                                    return Ok(());
                                }
                                ensure!(files.any, "ended with {:?} without files", texts[1]);
                                // the first point is the initial one
                                ensure!(done >= nstep + 2, "ended after {} accepted steps", done - 1);
                                if equal && done == nstep + 2 {
                                    t.op();
                                }
                                let (x, y) = if numerical { let p = &points[1][done - 1]; (p.0, p.1.clone()) } else { seen[1].jac.last().unwrap().clone() };
                                let jac = (twin.jac)(x, &y);
                                // a numerical Jacobian may be an older one
                                let mut res = together(&twin, &jac, &files, if equal { Some(twin.h) } else { None }, if numerical { 1e-6 } else { 1e-13 });
                                if numerical {
                                    for p in points[1].iter().rev().skip(1) {
                                        if res.is_err() {
                                            res = together(&twin, &(twin.jac)(p.0, &p.1), &files, if equal { Some(twin.h) } else { None }, 1e-6);
                                        }
                                    }
                                }
                                res
                            });
                        }
                    }
                }
            }
        }
    });
}

fn lattice(values: &[f64], n: usize) -> Vec<Vec<f64>> {
    (0..values.len().pow(n as u32)).map(|k| digits(k, values.len(), n).iter().map(|d| values[*d]).collect()).collect()
}

/// Trajectory of a system with equal steps
fn path<A>(system: System<A>, args: &mut A, method: Method, state: &[f64], x: f64, h: f64, n: usize) -> Result<Vec<f64>, String> {
    let mut s = OdeSolver::new(Params::new(method), system)?;
    let mut y = Vector::from(&state.to_vec());
    guarded(|| s.solve(&mut y, x, x + h * n as f64, Some(h), args, None))??;
    Ok(y.as_data().clone())
}

/// A sample against its twin: trajectories (function and mass matrix) and matrices in the files (Jacobian and mass matrix)
fn compare<A>(ctx: &mut Ctx, twin: &Twin, make: &dyn Fn() -> (System<'static, A>, A)) {
    for (s, state) in twin.states.iter().enumerate() {
        for x in &twin.xs {
            ctx.case(format!("{}/{}/x={}", twin.name, s, x), |t| {
                t.ops(4);
                t.state_f64(state);
                let methods = if twin.mass.is_some() { vec![Method::Radau5] } else { vec![Method::FwEuler, Method::Rk4, Method::Radau5] };
                let size = state.iter().fold(1.0, |m: f64, v| m.max(v.abs()));
                for method in methods {
                    let (system, mut args) = make();
                    ensure!(system.get_ndim() == twin.n, "{} components", system.get_ndim());
                    let got = path(system, &mut args, method, state, *x, twin.h, 2);
                    let want = path(twin.system(), &mut Seen::default(), method, state, *x, twin.h, 2);
                    let (got, want) = match (got, want) {
                        (Ok(a), Ok(b)) => (a, b),
                        (a, b) => {
                            ensure!(a == b, "{:?} and {:?}", a, b);
                            continue;
                        }
                    };
                    for i in 0..twin.n {
                        ensure!(near(got[i], want[i], 1e-11 * size.max(want[i].abs())), "{:?}: component {} is {} instead of {}", method, i, got[i], want[i]);
                    }
                }
                // the Jacobian after one step
                let (system, mut args) = make();
                let mut p = Params::new(Method::Radau5);
                p.newton.write_matrix_after_nstep_and_stop = Some(0);
                let mut solver = OdeSolver::new(p, system)?;
                let list = std::sync::Arc::new(std::sync::Mutex::new(vec![]));
                let keep = list.clone();
                let mut out = Output::new();
                out.set_step_callback(move |_, _, x, y, _: &mut A| {
                    keep.lock().unwrap().push((x, y.as_data().clone()));
                    Ok(false)
                });
                // two different stepsizes, to have the matrices computed anew
                let mut y = Vector::from(state);
                let res = guarded(|| solver.solve(&mut y, *x, *x + 4.0 * twin.h, Some(twin.h), &mut args, Some(&mut out)))?;
                let files = take_files(twin.n);
                let last = list.lock().unwrap().last().cloned();
                if res.is_err() && files.any {
                    let Some((xx, yy)) = last else { fail!("files before the first step") };
                    let jac = (twin.jac)(xx, &yy);
                    if jac.iter().flatten().any(|v| v.abs() > 1e-14) {
                        // it may be that of an earlier step
                        let first = together(twin, &jac, &files, Some(twin.h), 1e-12);
                        if first.is_err() {
                            together(twin, &(twin.jac)(*x, state), &files, Some(twin.h), 1e-12).map_err(|_| first.unwrap_err())?;
                        }
                    }
                } else {
                    t.trivial();
                }
                Ok(())
            });
        }
    }
}

fn samples(r: &mut Run) {
    let fine = r.thorough();
    r.section("samples", 1, |ctx, _| {
        let _keep = Keep::new();
        let v5: Vec<f64> = if fine { (-6..=6).map(|i| i as f64 / 2.0).collect() } else { vec![-1.5, -0.5, 0.25, 1.0, 2.0] };
        let v3 = if fine { vec![-1.0, -0.25, 0.5, 1.0, 2.0] } else { vec![-0.5, 0.5, 1.5] };
        let xs = vec![0.0, 0.5, 1.25, 3.0];
        let t = Twin {
            name: "constant".to_string(),
            n: 1,
            f: Box::new(|_, _| vec![1.0]),
            jac: Box::new(|_, _| vec![vec![0.0]]),
            mass: None,
            states: lattice(&v5, 1),
            xs: xs.clone(),
            h: 0.125,
        };
        compare(ctx, &t, &|| { let (s, _, _, a, _) = Samples::simple_equation_constant(); (s, a) });
        for symmetric in [false, true] {
            let t = Twin {
                name: format!("mass-{}", symmetric),
                n: 3,
                f: Box::new(|x, y| vec![-y[0] + y[1], y[0] + y[1], 1.0 / (1.0 + x)]),
                jac: Box::new(|_, _| vec![vec![-1.0, 1.0, 0.0], vec![1.0, 1.0, 0.0], vec![0.0; 3]]),
                mass: Some(vec![vec![1.0, 1.0, 0.0], vec![1.0, -1.0, 0.0], vec![0.0, 0.0, 1.0]]),
                states: lattice(&v3, 3),
                xs: xs.clone(),
                h: 0.125,
            };
            compare(ctx, &t, &|| { let (s, _, _, a, _) = Samples::simple_system_with_mass_matrix(symmetric, Genie::Umfpack); (s, a) });
        }
        let t = Twin {
            name: "brusselator".to_string(),
            n: 2,
            f: Box::new(|_, y| vec![1.0 - 4.0 * y[0] + y[0] * y[0] * y[1], 3.0 * y[0] - y[0] * y[0] * y[1]]),
            jac: Box::new(|_, y| vec![vec![-4.0 + 2.0 * y[0] * y[1], y[0] * y[0]], vec![3.0 - 2.0 * y[0] * y[1], -y[0] * y[0]]]),
            mass: None,
            states: lattice(&v5, 2),
            xs: vec![0.0],
            h: 0.03125,
        };
        compare(ctx, &t, &|| { let (s, _, _, a, _) = Samples::brusselator_ode(); (s, a) });
        const MU: f64 = 0.012277471;
        let force = |y: &[f64]| {
            let d0 = ((y[0] + MU).powi(2) + y[1] * y[1]).powf(1.5);
            let d1 = ((y[0] - 1.0 + MU).powi(2) + y[1] * y[1]).powf(1.5);
            (d0, d1)
        };
        let t = Twin {
            name: "arenstorf".to_string(),
            n: 4,
            f: Box::new(move |_, y| {
                let (d0, d1) = force(y);
                let md = 1.0 - MU;
                vec![y[2], y[3], y[0] + 2.0 * y[3] - md * (y[0] + MU) / d0 - MU * (y[0] - md) / d1, y[1] - 2.0 * y[2] - md * y[1] / d0 - MU * y[1] / d1]
            }),
            jac: Box::new(move |_, y| {
                let (d0, d1) = force(y);
                let md = 1.0 - MU;
                let (a, b) = (y[0] + MU, y[0] - md);
                let (r0, r1) = (a * a + y[1] * y[1], b * b + y[1] * y[1]);
                let (e0, e1) = (3.0 / (d0 * r0), 3.0 / (d1 * r1));
                vec![
                    vec![0.0, 0.0, 1.0, 0.0],
                    vec![0.0, 0.0, 0.0, 1.0],
                    vec![1.0 - md / d0 - MU / d1 + md * a * a * e0 + MU * b * b * e1, md * a * y[1] * e0 + MU * b * y[1] * e1, 0.0, 2.0],
                    vec![md * a * y[1] * e0 + MU * b * y[1] * e1, 1.0 - md / d0 - MU / d1 + md * y[1] * y[1] * e0 + MU * y[1] * y[1] * e1, -2.0, 0.0],
                ]
            }),
            mass: None,
            states: lattice(&[-0.75, 0.5, 1.25], 4),
            xs: vec![0.0],
            h: 0.0078125,
        };
        compare(ctx, &t, &|| { let (s, _, _, _, a, _) = Samples::arenstorf(); (s, a) });
        let t = Twin {
            name: "hairer-wanner".to_string(),
            n: 1,
            f: Box::new(|x, y| vec![-50.0 * (y[0] - x.cos())]),
            jac: Box::new(|_, _| vec![vec![-50.0]]),
            mass: None,
            states: lattice(&v5, 1),
            xs: xs.clone(),
            h: 0.015625,
        };
        compare(ctx, &t, &|| { let (s, _, _, a, _) = Samples::hairer_wanner_eq1(); (s, a) });
        let t = Twin {
            name: "robertson".to_string(),
            n: 3,
            f: Box::new(|_, y| {
                let (a, b, c) = (0.04 * y[0], 1.0e4 * y[1] * y[2], 3.0e7 * y[1] * y[1]);
                vec![-a + b, a - b - c, c]
            }),
            jac: Box::new(|_, y| vec![vec![-0.04, 1.0e4 * y[2], 1.0e4 * y[1]], vec![0.04, -1.0e4 * y[2] - 6.0e7 * y[1], -1.0e4 * y[1]], vec![0.0, 6.0e7 * y[1], 0.0]]),
            mass: None,
            states: [1.0, 0.75].iter().flat_map(|a| [1e-5, 3e-5].iter().flat_map(move |b| [0.0, 0.125, 0.5].iter().map(move |c| vec![*a, *b, *c]))).collect(),
            xs: vec![0.0],
            h: 0.0001220703125,
        };
        compare(ctx, &t, &|| { let (s, _, _, a) = Samples::robertson(); (s, a) });
        for (eps, stationary) in [(1.0, false), (0.25, false), (1e-3, false), (0.5, true), (1.0, true)] {
            let e = if stationary { 1.0 } else { eps };
            let t = Twin {
                name: format!("van-der-pol-{}-{}", eps, stationary),
                n: 2,
                f: Box::new(move |_, y| vec![y[1], ((1.0 - y[0] * y[0]) * y[1] - y[0]) / e]),
                jac: Box::new(move |_, y| vec![vec![0.0, 1.0], vec![(-2.0 * y[0] * y[1] - 1.0) / e, (1.0 - y[0] * y[0]) / e]]),
                mass: None,
                states: lattice(&v5, 2),
                xs: vec![0.0],
                h: 0.0009765625,
            };
            compare(ctx, &t, &|| { let (s, _, _, _, a) = Samples::van_der_pol(eps, stationary); (s, a) });
        }
        let gate = |y: &[f64]| 1e-6 * (((y[1] - y[2]) / 0.026).exp() - 1.0);
        let t = Twin {
            name: "amplifier".to_string(),
            n: 5,
            f: Box::new(move |x, y| {
                let g = gate(y);
                vec![(y[0] - 0.4 * (200.0 * PI * x).sin()) / 1000.0, (2.0 * y[1] - 6.0) / 9000.0 + 0.01 * g, y[2] / 9000.0 - g, (y[3] - 6.0) / 9000.0 + 0.99 * g, y[4] / 9000.0]
            }),
            jac: Box::new(move |_, y| {
                let g = (gate(y) + 1e-6) / 0.026;
                let mut m = vec![vec![0.0; 5]; 5];
                m[0][0] = 1e-3;
                (m[1][1], m[1][2]) = (2.0 / 9000.0 + 0.01 * g, -0.01 * g);
                (m[2][1], m[2][2]) = (-g, 1.0 / 9000.0 + g);
                (m[3][1], m[3][2], m[3][3]) = (0.99 * g, -0.99 * g, 1.0 / 9000.0);
                m[4][4] = 1.0 / 9000.0;
                m
            }),
            mass: Some({
                let mut m = vec![vec![0.0; 5]; 5];
                (m[0][0], m[0][1], m[1][0], m[1][1]) = (-1e-6, 1e-6, 1e-6, -1e-6);
                m[2][2] = -2e-6;
                (m[3][3], m[3][4], m[4][3], m[4][4]) = (-3e-6, 3e-6, 3e-6, -3e-6);
                m
            }),
            states: vec![vec![0.0, 3.0, 3.0, 6.0, 0.0], vec![0.0, 3.0, 2.95, 6.0, 0.0], vec![0.125, 3.0, 3.0, 5.5, -0.5]],
            xs: vec![0.0, 0.0025, 0.01],
            h: 0.0001220703125,
        };
        compare(ctx, &t, &|| { let (s, _, _, a) = Samples::amplifier1t(); (s, a) });
        let t = Twin {
            name: "kreyszig-902".to_string(),
            n: 1,
            f: Box::new(|x, y| vec![x + y[0]]),
            jac: Box::new(|_, _| vec![vec![1.0]]),
            mass: None,
            states: lattice(&v5, 1),
            xs: xs.clone(),
            h: 0.125,
        };
        compare(ctx, &t, &|| { let (s, _, _, a, _) = Samples::kreyszig_eq6_page902(); (s, a) });
        let t = Twin {
            name: "kreyszig-920".to_string(),
            n: 2,
            f: Box::new(|x, y| vec![y[1], -10.0 * y[0] - 11.0 * y[1] + 10.0 * x + 11.0]),
            jac: Box::new(|_, _| vec![vec![0.0, 1.0], vec![-10.0, -11.0]]),
            mass: None,
            states: lattice(&v5, 2),
            xs,
            h: 0.03125,
        };
        compare(ctx, &t, &|| { let (s, _, _, a, _) = Samples::kreyszig_ex4_page920(); (s, a) });
        // reaction and diffusion on a grid
        for np in if fine { vec![2, 3, 4, 5, 6] } else { vec![3, 4] } {
            for kind in 0..4 {
                let (second, still) = (kind & 1 == 1, kind & 2 == 2);
                for alpha in [2e-3, 0.1] {
                    if second && np < 3 {
                        continue;
                    }
                    let s = np * np;
                    let c = if still { 0.0 } else { alpha * ((np - 1) * (np - 1)) as f64 };
                    // neighbours of node i of a line: mirrored at the ends, or around the ring of nodes
                    let ends = move |i: usize| -> [usize; 2] {
                        if second {
                            [(i + np - 1) % np, (i + 1) % np]
                        } else {
                            [if i == 0 { 1 } else { i - 1 }, if i + 1 == np { np - 2 } else { i + 1 }]
                        }
                    };
                    let around = move |m: usize| -> [usize; 4] {
                        let (i, j) = (m % np, m / np);
                        [ends(i)[0] + j * np, ends(i)[1] + j * np, i + ends(j)[0] * np, i + ends(j)[1] * np]
                    };
                    let t = Twin {
                        name: format!("reaction-{}-{}-{}-{}", np, second, still, alpha),
                        n: 2 * s,
                        f: Box::new(move |time, y| {
                            let mut f = vec![0.0; 2 * s];
                            for m in 0..s {
                                let (u, v) = (y[m], y[s + m]);
                                f[m] = 1.0 - 4.4 * u + u * u * v;
                                f[s + m] = 3.4 * u - u * u * v;
                                for k in around(m) {
                                    f[m] += c * (y[k] - u);
                                    f[s + m] += c * (y[s + k] - v);
                                }
                                let (px, py) = ((m % np) as f64 / (np - 1) as f64, (m / np) as f64 / (np - 1) as f64);
                                if second && time >= 1.1 && (px - 0.3).powi(2) + (py - 0.6).powi(2) <= 0.01 {
                                    f[m] += 5.0;
                                }
                            }
                            f
                        }),
                        jac: Box::new(move |_, y| {
                            let mut j = vec![vec![0.0; 2 * s]; 2 * s];
                            for m in 0..s {
                                let (u, v) = (y[m], y[s + m]);
                                j[m][m] += -4.4 + 2.0 * u * v;
                                j[m][s + m] += u * u;
                                j[s + m][m] += 3.4 - 2.0 * u * v;
                                j[s + m][s + m] += -u * u;
                                for k in around(m) {
                                    for o in [0, s] {
                                        j[o + m][o + k] += c;
                                        j[o + m][o + m] -= c;
                                    }
                                }
                            }
                            j
                        }),
                        mass: None,
                        states: (0..3).map(|k| (0..2 * s).map(|i| 0.5 + ((i * (k + 2) + k) % 5) as f64 / 4.0).collect()).collect(),
                        xs: vec![0.0, 1.0, 1.25],
                        h: 0.0009765625,
                    };
                    compare(ctx, &t, &|| { let (s, _, _, a) = Samples::brusselator_pde(alpha, np, second, still); (s, a) });
                    // start
                    ctx.case(format!("{}/start", t.name), |tr| {
                        tr.op();
                        let (_, t0, y0, _) = Samples::brusselator_pde(alpha, np, second, still);
                        tr.state_f64(y0.as_data());
                        ensure!(t0 == 0.0 && y0.dim() == 2 * s, "start at {} with {} components", t0, y0.dim());
                        for m in 0..s {
                            let (x, y) = ((m % np) as f64 / (np - 1) as f64, (m / np) as f64 / (np - 1) as f64);
                            let (u, v) = if second { (22.0 * y * (1.0 - y).powf(1.5), 27.0 * x * (1.0 - x).powf(1.5)) } else { (0.5 + y, 1.0 + 5.0 * x) };
                            ensure!(near(y0[m], u, 1e-14) && near(y0[s + m], v, 1e-14), "node {} starts with {} and {} instead of {} and {}", m, y0[m], y0[s + m], u, v);
                        }
                        Ok(())
                    });
                }
            }
        }
    });
}

/// Stated solutions: initial values, the equation along the solution, reference values at the end
fn solutions(r: &mut Run) {
    let n = r.pick(40, 400);
    r.section("solutions", 5, |ctx, k| {
        let mut along = |name: &str, x0: f64, y0: Vec<f64>, sol: &dyn Fn(f64) -> Vec<f64>, lhs: &dyn Fn(f64, &[f64], &[f64]) -> Vec<f64>| {
            ctx.case(format!("{}/start", name), |t| {
                t.op();
                t.state_f64(&y0);
                let s = sol(x0);
                ensure!(s.iter().zip(&y0).all(|(a, b)| near(*a, *b, 1e-14)), "the solution starts at {:?} and the problem at {:?}", s, y0);
                Ok(())
            });
            for i in 0..=n {
                let x = x0 + 0.01 + 4.0 * i as f64 / n as f64;
                ctx.case(format!("{}/{}", name, i), |t| {
                    t.ops(5);
                    let y = sol(x);
                    t.state_f64(&y);
                    let h = 1.0 / 2048.0;
                    let p: Vec<Vec<f64>> = [-2.0, -1.0, 1.0, 2.0].iter().map(|c| sol(x + c * h)).collect();
                    let dy: Vec<f64> = (0..y.len()).map(|j| (p[0][j] - 8.0 * p[1][j] + 8.0 * p[2][j] - p[3][j]) / (12.0 * h)).collect();
                    for (j, v) in lhs(x, &y, &dy).iter().enumerate() {
                        ensure!(v.abs() < 1e-5, "equation {} at {} is off by {}", j, x, v);
                    }
                    Ok(())
                });
            }
        };
        let call = |f: &dyn Fn(&mut Vector, f64, &mut u8), n: usize, x: f64| {
            let mut y = Vector::new(n);
            f(&mut y, x, &mut 0);
            y.as_data().clone()
        };
        match k {
            0 => {
                let (_, x0, y0, _, sol) = Samples::simple_equation_constant();
                along("constant", x0, y0.as_data().clone(), &|x| call(&sol, 1, x), &|_, _, d| vec![d[0] - 1.0]);
                let (_, x0, y0, _, sol) = Samples::simple_system_with_mass_matrix(false, Genie::Umfpack);
                along("mass", x0, y0.as_data().clone(), &|x| call(&sol, 3, x), &|x, y, d| vec![d[0] + d[1] + y[0] - y[1], d[0] - d[1] - y[0] - y[1], d[2] - 1.0 / (1.0 + x)]);
            }
            1 => {
                let (_, x0, y0, _, sol) = Samples::hairer_wanner_eq1();
                along("hairer-wanner", x0, y0.as_data().clone(), &|x| call(&sol, 1, x), &|x, y, d| vec![d[0] + 50.0 * (y[0] - x.cos())]);
            }
            2 => {
                let (_, x0, y0, _, sol) = Samples::kreyszig_eq6_page902();
                along("kreyszig-902", x0, y0.as_data().clone(), &|x| call(&sol, 1, x), &|x, y, d| vec![d[0] - x - y[0]]);
                let (_, x0, y0, _, sol) = Samples::kreyszig_ex4_page920();
                along("kreyszig-920", x0, y0.as_data().clone(), &|x| call(&sol, 2, x), &|x, y, d| vec![d[0] - y[1], d[1] + 10.0 * y[0] + 11.0 * y[1] - 10.0 * x - 11.0]);
            }
            3 => {
                // the reference values are those at the documented end of the interval
                for method in [Method::DoPri8, Method::Radau5, Method::DoPri5] {
                    ctx.case(format!("references/{:?}", method), |t| {
                        t.ops(3);
                        let mut p = Params::new(method);
                        p.set_tolerances(1e-11, 1e-11, None)?;
                        let (s, x0, mut y, mut a, reference) = Samples::brusselator_ode();
                        ensure!(x0 == 0.0 && y.as_data() == &[1.5, 3.0], "start {} {:?}", x0, y.as_data());
                        let mut solver = OdeSolver::new(p, s)?;
                        solver.solve(&mut y, x0, 20.0, None, &mut a, None)?;
                        t.state_f64(y.as_data());
                        ensure!(near(y[0], reference[0], 1e-6) && near(y[1], reference[1], 1e-6), "{:?} instead of {:?}", y.as_data(), reference.as_data());
                        let (s, x0, y0, x1, mut a, reference) = Samples::arenstorf();
                        let mut y = y0.clone();
                        let mut solver = OdeSolver::new(p, s)?;
                        solver.solve(&mut y, x0, x1, None, &mut a, None)?;
                        t.state_f64(y.as_data());
                        for i in 0..4 {
                            ensure!(near(reference[i], y0[i], 1e-9), "the reference is not on the closed orbit");
                            ensure!(near(y[i], reference[i], 2e-3), "component {}: {} instead of {}", i, y[i], reference[i]);
                        }
                        // a period of the stationary oscillation
                        let (s, x0, y0, x1, mut a) = Samples::van_der_pol(0.0, true);
                        let mut y = y0.clone();
                        let mut solver = OdeSolver::new(p, s)?;
                        solver.solve(&mut y, x0, x1, None, &mut a, None)?;
                        t.state_f64(y.as_data());
                        ensure!(near(y[0], y0[0], 1e-7) && near(y[1], y0[1], 1e-7), "after a period {:?} instead of {:?}", y.as_data(), y0.as_data());
                        Ok(())
                    });
                }
            }
            _ => {
                ctx.case("starts", |t| {
                    t.ops(3);
                    let (_, x0, y0, _) = Samples::robertson();
                    ensure!(x0 == 0.0 && y0.as_data() == &[1.0, 0.0, 0.0], "robertson");
                    let (_, x0, y0, x1, _) = Samples::van_der_pol(1e-3, false);
                    ensure!(x0 == 0.0 && x1 == 2.0 && y0.as_data() == &[2.0, -0.6], "van der pol");
                    // the algebraic equations hold at the start
                    let (_, x0, y0, _) = Samples::amplifier1t();
                    ensure!(x0 == 0.0 && y0.as_data() == &[0.0, 3.0, 3.0, 6.0, 0.0], "amplifier");
                    t.state_f64(y0.as_data());
                    Ok(())
                });
            }
        }
    });
}
