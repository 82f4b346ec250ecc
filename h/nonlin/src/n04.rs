// N04: configuration, log, report and sample problems tell the truth.
use crate::n01::{Me, METHODS};
use crate::sys::*;
use mc::{ensure, fail, guarded, near, Outcome, Run};
use russell_lab::Vector;
use russell_nonlin::*;
use russell_sparse::{Genie, LinSolParams, Ordering, Sym};
use std::collections::BTreeMap;

pub fn run(r: &mut Run) {
    r.level("exploration", "all ordered pairs of settings against a table of names and values; all systems x methods x increments x failing attempts x iteration limits x kinds of log, each log compared line by line with the monitored run; every sample problem on a lattice of states");
    r.assume("logs are read as numbers: columns, icons and rules are not judged");
    settings(r);
    systems(r);
    logs(r);
    separate_header(r);
    samples(r);
}

/// Systems have at least one equation and one entry, and the documented number of entries otherwise
fn systems(r: &mut Run) {
    let syms = [Sym::No, Sym::YesFull, Sym::YesLower, Sym::YesUpper];
    r.section("systems", 9 * 4, |ctx, it| {
        let (n, sym) = (it / 4, syms[it % 4]);
        for nnz in [None, Some(0), Some(1), Some(2), Some(7), Some(100)] {
            ctx.case(&format!("{n}/{sym:?}/{nnz:?}"), |tr| {
                tr.op();
                let s = System::<()>::new(n, nnz, sym, |_, _, _, _| Ok(()), |_, _, _, _, _| Ok(()));
                ensure!(s.is_ok() == (n >= 1 && nnz != Some(0)), "accepted = {}", s.is_ok());
                if let Ok(s) = s {
                    let half = sym == Sym::YesLower || sym == Sym::YesUpper;
                    let want = nnz.unwrap_or(if half { n * (n + 1) / 2 } else { n * n });
                    for s in [s.clone(), s] {
                        ensure!(s.get_ndim() == n && s.get_nnz_ggu() == want && s.get_sym_ggu() == sym, "{} equations, {} entries, {:?}", s.get_ndim(), s.get_nnz_ggu(), s.get_sym_ggu());
                        for me in METHODS {
                            tr.op();
                            // the augmented system is not symmetric
                            let c = me.config();
                            let ok = !matches!(c.get_method(), Method::Arclength) || c.get_bordering() || sym == Sym::No;
                            let made = guarded(|| Solver::new(&c, s.clone()).is_ok())?;
                            ensure!(made == ok, "{me:?}: solver created = {made}");
                        }
                    }
                }
                Ok(())
            });
        }
    });
}

/// A setting: what it is called, the value as shown by the getter, whether a solver accepts it
struct Setting {
    apply: Box<dyn Fn(&mut Config) + Sync + Send>,
    shows: Vec<(&'static str, String, bool)>,
}

fn shown(c: &Config) -> BTreeMap<&'static str, String> {
    let mut m = BTreeMap::new();
    m.insert("method", format!("{:?}", c.get_method()));
    m.insert("log_file", format!("{:?}", c.get_log_file()));
    m.insert("verbose", format!("{:?}", c.get_verbose()));
    m.insert("verbose_iterations", format!("{:?}", c.get_verbose_iterations()));
    m.insert("verbose_stats", format!("{:?}", c.get_verbose_stats()));
    m.insert("verbose_legend", format!("{:?}", c.get_verbose_legend()));
    m.insert("verbose_header_footer", format!("{:?}", c.get_verbose_header_footer()));
    m.insert("hide_timings", format!("{:?}", c.get_hide_timings()));
    m.insert("record_iterations_residuals", format!("{:?}", c.get_record_iterations_residuals()));
    m.insert("enable_precise_stop_u_comp", format!("{:?}", c.get_enable_precise_stop_u_comp()));
    m.insert("m_failure", format!("{:?}", c.get_m_failure()));
    m.insert("n_step_max", format!("{:?}", c.get_n_step_max()));
    m.insert("n_cont_failure_max", format!("{:?}", c.get_n_cont_failure_max()));
    m.insert("n_cont_rejection_max", format!("{:?}", c.get_n_cont_rejection_max()));
    m.insert("genie", format!("{:?}", c.get_genie()));
    m.insert("lin_sol_config", format!("{:?}", c.get_lin_sol_config().map(|p| p.ordering)));
    m.insert("write_matrix", format!("{:?}", c.get_write_matrix_after_nstep_and_stop()));
    m.insert("tol_abs_residual", format!("{:?}", c.get_tol_abs_residual()));
    m.insert("tol_abs_delta", format!("{:?}", c.get_tol_abs_delta()));
    m.insert("tol_rel_delta", format!("{:?}", c.get_tol_rel_delta()));
    m.insert("delta_max_allowed", format!("{:?}", c.get_delta_max_allowed()));
    m.insert("disable_rel_delta_analysis", format!("{:?}", c.get_disable_rel_delta_analysis()));
    m.insert("n_iteration_max", format!("{:?}", c.get_n_iteration_max()));
    m.insert("n_cont_residual_divergence_max", format!("{:?}", c.get_n_cont_residual_divergence_max()));
    m.insert("n_cont_delta_divergence_max", format!("{:?}", c.get_n_cont_delta_divergence_max()));
    m.insert("euler_predictor", format!("{:?}", c.get_euler_predictor()));
    m.insert("bordering", format!("{:?}", c.get_bordering()));
    m.insert("debug_predictor", format!("{:?}", c.get_debug_predictor()));
    m.insert("nr_control_enabled", format!("{:?}", c.get_nr_control_enabled()));
    m.insert("tg_control_enabled", format!("{:?}", c.get_tg_control_enabled()));
    m.insert("tg_control_pid_vcc", format!("{:?}", c.get_tg_control_pid_vcc()));
    m.insert("tg_control_rdiff_min", format!("{:?}", c.get_tg_control_rdiff_min()));
    m.insert("tg_control_rho_for_tiny_rdiff", format!("{:?}", c.get_tg_control_rho_for_tiny_rdiff()));
    m.insert("nr_control_n_opt", format!("{:?}", c.get_nr_control_n_opt()));
    m.insert("nr_control_beta", format!("{:?}", c.get_nr_control_beta()));
    m.insert("tg_control_rdiff_type", format!("{:?}", c.get_tg_control_rdiff_type()));
    m.insert("tg_control_tol", format!("{:?}", c.get_tg_control_tol()));
    m.insert("tg_control_beta1", format!("{:?}", c.get_tg_control_beta1()));
    m.insert("tg_control_beta2", format!("{:?}", c.get_tg_control_beta2()));
    m.insert("tg_control_beta3", format!("{:?}", c.get_tg_control_beta3()));
    m.insert("tg_control_alpha2", format!("{:?}", c.get_tg_control_alpha2()));
    m.insert("tg_control_alpha3", format!("{:?}", c.get_tg_control_alpha3()));
    m
}

macro_rules! each {
    ($list:ident, $name:literal, $set:ident, $values:expr, $ok:expr) => {
        for v in $values {
            $list.push(Setting { apply: Box::new(move |c: &mut Config| { c.$set(v); }), shows: vec![($name, format!("{:?}", v), $ok(v))] });
        }
    };
}

fn table() -> Vec<Setting> {
    let mut t = Vec::new();
    let flags = [true, false];
    each!(t, "method", set_method, [Method::Natural, Method::Arclength], |_| true);
    each!(t, "verbose", set_verbose_only, flags, |_| true);
    each!(t, "verbose_iterations", set_verbose_iterations, flags, |_| true);
    each!(t, "verbose_stats", set_verbose_stats, flags, |_| true);
    each!(t, "verbose_legend", set_verbose_legend, flags, |_| true);
    each!(t, "verbose_header_footer", set_verbose_header_footer, flags, |_| true);
    each!(t, "hide_timings", set_hide_timings, flags, |_| true);
    each!(t, "record_iterations_residuals", set_record_iterations_residuals, flags, |_| true);
    each!(t, "enable_precise_stop_u_comp", set_enable_precise_stop_u_comp, flags, |_| true);
    each!(t, "m_failure", set_m_failure, [0.0, 0.0009, 0.001, 0.75, -0.5], |v: f64| v >= 0.001);
    each!(t, "n_step_max", set_n_step_max, [0, 1, 7], |v: usize| v > 0);
    each!(t, "n_cont_failure_max", set_n_cont_failure_max, [0, 1, 9], |v: usize| v > 0);
    each!(t, "n_cont_rejection_max", set_n_cont_rejection_max, [0, 1, 11], |v: usize| v > 0);
    each!(t, "genie", set_genie, [Genie::Umfpack], |_| true);
    let small = |v: f64| v >= 1e-12;
    each!(t, "tol_abs_residual", set_tol_abs_residual, [0.0, 0.9e-12, 1e-12, 0.03, -1.0], small);
    each!(t, "tol_abs_delta", set_tol_abs_delta, [0.0, 0.9e-12, 1e-12, 0.04, -1.0], small);
    each!(t, "tol_rel_delta", set_tol_rel_delta, [0.0, 0.9e-12, 1e-12, 0.05, -1.0], small);
    each!(t, "tg_control_tol", set_tg_control_tol, [0.0, 0.9e-12, 1e-12, 0.06, -1.0], small);
    each!(t, "delta_max_allowed", set_delta_max_allowed, [-1.0, 0.0, 1e-300, 7.0], |v: f64| v > 0.0);
    each!(t, "disable_rel_delta_analysis", set_disable_rel_delta_analysis, flags, |_| true);
    each!(t, "n_iteration_max", set_n_iteration_max, [0, 1, 8], |v: usize| v > 0);
    each!(t, "n_cont_residual_divergence_max", set_n_cont_residual_divergence_max, [0, 1, 12], |v: usize| v > 0);
    each!(t, "n_cont_delta_divergence_max", set_n_cont_delta_divergence_max, [0, 1, 13], |v: usize| v > 0);
    each!(t, "euler_predictor", set_euler_predictor, flags, |_| true);
    each!(t, "bordering", set_bordering, flags, |_| true);
    each!(t, "debug_predictor", set_debug_predictor, flags, |_| true);
    each!(t, "nr_control_enabled", set_nr_control_enabled, flags, |_| true);
    each!(t, "tg_control_enabled", set_tg_control_enabled, flags, |_| true);
    each!(t, "tg_control_pid_vcc", set_tg_control_pid_vcc, flags, |_| true);
    each!(t, "tg_control_rdiff_min", set_tg_control_rdiff_min, [0.25], |_| true);
    each!(t, "tg_control_rho_for_tiny_rdiff", set_tg_control_rho_for_tiny_rdiff, [1.75], |_| true);
    each!(t, "nr_control_n_opt", set_nr_control_n_opt, [0, 1, 14], |v: usize| v > 0);
    each!(t, "nr_control_beta", set_nr_control_beta, [-0.5, 0.0, 0.01, 3.0], |v: f64| v > 0.0);
    each!(t, "tg_control_rdiff_type", set_tg_control_rdiff_type, [RdiffType::Ave, RdiffType::Max], |_| true);
    each!(t, "tg_control_beta1", set_tg_control_beta1, [0.11], |_| true);
    each!(t, "tg_control_beta2", set_tg_control_beta2, [0.12], |_| true);
    each!(t, "tg_control_beta3", set_tg_control_beta3, [0.13], |_| true);
    each!(t, "tg_control_alpha2", set_tg_control_alpha2, [0.14], |_| true);
    each!(t, "tg_control_alpha3", set_tg_control_alpha3, [0.15], |_| true);
    for path in ["somewhere/a.log", "b.log"] {
        t.push(Setting { apply: Box::new(move |c| { c.set_log_file(path); }), shows: vec![("log_file", format!("{:?}", Some(path)), true)] });
    }
    for n in [0, 5] {
        t.push(Setting { apply: Box::new(move |c| { c.set_write_matrix_after_nstep_and_stop(n); }), shows: vec![("write_matrix", format!("{:?}", Some(n)), true)] });
    }
    for ordering in [Ordering::Amd, Ordering::Metis] {
        let mut p = LinSolParams::new();
        p.ordering = ordering;
        t.push(Setting { apply: Box::new(move |c| { c.set_lin_sol_config(Some(p)); }), shows: vec![("lin_sol_config", format!("{:?}", Some(ordering)), true)] });
    }
    t.push(Setting { apply: Box::new(|c| { c.set_lin_sol_config(None); }), shows: vec![("lin_sol_config", "None".to_string(), true)] });
    for k in 0..8 {
        let f = [k & 1 == 1, k & 2 == 2, k & 4 == 4];
        t.push(Setting {
            apply: Box::new(move |c| { c.set_verbose(f[0], f[1], f[2]); }),
            shows: vec![("verbose", format!("{}", f[0]), true), ("verbose_iterations", format!("{}", f[1]), true), ("verbose_stats", format!("{}", f[2]), true)],
        });
    }
    for (a, b) in [(1e-5, 1e-4), (0.0, 1e-3), (1e-3, 0.0), (1e-12, 2e-12)] {
        t.push(Setting { apply: Box::new(move |c| { c.set_tol_delta(a, b); }), shows: vec![("tol_abs_delta", format!("{:?}", a), small(a)), ("tol_rel_delta", format!("{:?}", b), small(b))] });
    }
    for class in [SoderlindClass::H211PI, SoderlindClass::Ho321, SoderlindClass::H211b(4.0), SoderlindClass::H312b(8.0)] {
        let (b1, b2, b3, a2, a3) = class.params();
        t.push(Setting {
            apply: Box::new(move |c| { c.set_tg_control_soderlind(class); }),
            shows: vec![
                ("tg_control_beta1", format!("{:?}", b1), true),
                ("tg_control_beta2", format!("{:?}", b2), true),
                ("tg_control_beta3", format!("{:?}", b3), true),
                ("tg_control_alpha2", format!("{:?}", a2), true),
                ("tg_control_alpha3", format!("{:?}", a3), true),
            ],
        });
    }
    t
}

/// Every ordered pair of settings: exactly what was set is changed, and a solver is refused exactly if a value is out of range
fn settings(r: &mut Run) {
    let table = table();
    let n = table.len();
    let deep = r.thorough();
    r.section("settings", n, |ctx, a| {
        for b in 0..n {
            // a third setting in the thorough tier
            let thirds: Vec<Option<usize>> = if deep { (0..n).step_by(5).map(Some).collect() } else { vec![None] };
            for third in thirds {
                ctx.case(&format!("{}/{}/{:?}", a, b, third), |tr| {
                    let mut c = Config::new();
                    let mut model: BTreeMap<&'static str, (String, bool)> = shown(&c).into_iter().map(|(k, v)| (k, (v, true))).collect();
                    for s in [Some(a), Some(b), third].into_iter().flatten() {
                        tr.op();
                        (table[s].apply)(&mut c);
                        for (k, v, ok) in &table[s].shows {
                            model.insert(k, (v.clone(), *ok));
                        }
                    }
                    let now = shown(&c);
                    for (k, v) in &now {
                        ensure!(*v == model[k].0, "{} is {} instead of {}", k, v, model[k].0);
                    }
                    tr.state(&format!("{:?}", now));
                    let copy = shown(&c.clone());
                    ensure!(copy == now, "the copy differs");
                    let want = match c.get_method() {
                        Method::Natural => "Natural",
                        Method::Arclength if c.get_bordering() => "Arclength(bord)",
                        Method::Arclength => "Arclength(full)",
                    };
                    ensure!(c.get_continuation() == want, "called {} instead of {}", c.get_continuation(), want);
                    let bad: Vec<_> = model.iter().filter(|(_, v)| !v.1).map(|(k, v)| (*k, v.0.clone())).collect();
                    let made = Solver::new(&c, system(Kind::Line, 1, Sym::No, false));
                    ensure!(made.is_ok() == bad.is_empty(), "solver with out-of-range values {:?}: {:?}", bad, made.err());
                    Ok(())
                });
            }
        }
    });
}

#[derive(Debug)]
enum Line {
    Step(f64, f64),
    Last(f64),
    Iteration(usize, f64),
    Rejected,
}

fn number(s: &str) -> Option<f64> {
    s.parse::<f64>().ok()
}

/// The part of the log about steps
fn parse(text: &str) -> Result<Vec<Line>, String> {
    let mut v = Vec::new();
    for line in text.lines() {
        let w: Vec<&str> = line.split_whitespace().collect();
        if line.contains("rejected") && line.contains("converge") && !line.contains('=') {
            v.push(Line::Rejected);
        } else if w.len() >= 4 && w[0] == "·" && w[1] == "·" {
            let (Ok(k), Some(e)) = (w[2].parse::<usize>(), number(w[3])) else { return Err(format!("line {:?}", line)) };
            v.push(Line::Iteration(k, e));
        } else if w.len() == 2 && number(w[0]).is_some() && number(w[1]).is_some() {
            v.push(Line::Step(number(w[0]).unwrap(), number(w[1]).unwrap()));
        } else if w.len() == 1 && number(w[0]).is_some() {
            v.push(Line::Last(number(w[0]).unwrap()));
        }
    }
    Ok(v)
}

fn report(text: &str, name: &str) -> Option<String> {
    let l = text.lines().find(|l| l.starts_with(name))?;
    Some(l.split('=').nth(1)?.trim().to_string())
}

/// A number shown with the given digits after the point in scientific form
fn shows(text: f64, value: f64, digits: i32) -> bool {
    (text - value).abs() <= 0.51 * 10f64.powi(-digits) * 10f64.powf(value.abs().max(1e-300).log10().floor()) + 1e-300
}

/// Every attempt of a run: parameter and increment at its begin, residuals at its iterations, accepted or not
struct Attempt {
    l: f64,
    h: f64,
    residuals: Vec<f64>,
    accepted: bool,
}

fn attempts(kind: Kind, n: usize, m_failure: f64, d: &Done, first_h: f64) -> Vec<Attempt> {
    let mut list: Vec<Attempt> = Vec::new();
    let mut at = (d.points[0].1, first_h);
    let mut outs = 0;
    for e in &d.args.ev {
        match e {
            Ev::Prepare => {
                if let Some(last) = list.last() {
                    if !last.accepted {
                        at.1 *= m_failure;
                    }
                }
                list.push(Attempt { l: at.0, h: at.1, residuals: Vec::new(), accepted: false });
            }
            Ev::Gg(l, u) => {
                if let Some(a) = list.last_mut() {
                    a.residuals.push(kind.g(n, u, *l).iter().fold(0.0, |m: f64, v| m.max(v.abs())));
                }
            }
            Ev::Out(_, l, h) => {
                outs += 1;
                if outs > 1 {
                    list.last_mut().unwrap().accepted = true;
                    at = (*l, *h);
                }
            }
            _ => (),
        }
    }
    list
}

fn compare(text: &str, kind: Kind, n: usize, me: Me, m_failure: f64, with: [bool; 4], d: &Done, quiet: &Solver<Args>) -> Outcome {
    let lines = parse(text)?;
    let steps: Vec<(f64, f64)> = lines.iter().filter_map(|l| if let Line::Step(a, b) = l { Some((*a, *b)) } else { None }).collect();
    ensure!(steps.len() == d.counts.steps, "{} steps in the log of a run with {}", steps.len(), d.counts.steps);
    let list = attempts(kind, n, m_failure, d, steps.first().map_or(0.0, |s| s.1));
    ensure!(list.len() == steps.len(), "{} attempts and {} steps", list.len(), steps.len());
    // group the lines by attempt
    let mut k = 0;
    let mut seen: Vec<(Vec<(usize, f64)>, usize)> = Vec::new();
    for (at, l) in lines.iter().enumerate() {
        match l {
            Line::Step(a, b) => {
                ensure!(shows(*a, list[k].l, 3), "step {} begins at {} in the log and at {} in the run", k, a, list[k].l);
                ensure!(shows(*b, list[k].h, 3) || near(*b, list[k].h, 2e-3 * list[k].h), "step {} has increment {} in the log and {} in the run", k, b, list[k].h);
                k += 1;
                seen.push((Vec::new(), 0));
            }
            Line::Iteration(i, e) => seen.last_mut().ok_or("iteration before the first step")?.0.push((*i, *e)),
            Line::Rejected => seen.last_mut().ok_or("rejection before the first step")?.1 += 1,
            Line::Last(a) => {
                ensure!(shows(*a, d.l, 3), "the log ends at {} and the run at {}", a, d.l);
                ensure!(at + 1 == lines.len(), "lines about steps after the last one");
            }
        }
    }
    ensure!(matches!(lines.last(), Some(Line::Last(_))), "the last parameter is missing");
    for (k, (iterations, rejected)) in seen.iter().enumerate() {
        let a = &list[k];
        ensure!(*rejected <= 1 && (!a.accepted || *rejected == 0), "step {}: {} rejections logged, accepted: {}", k, rejected, a.accepted);
        ensure!(a.accepted || a.residuals.is_empty() || *rejected == 1, "step {}: not accepted, but the rejection is not logged; residuals {:?}", k, a.residuals);
        if !with[0] {
            ensure!(iterations.is_empty(), "iterations logged although this was not asked for");
            continue;
        }
        ensure!(!a.accepted || iterations.len() == a.residuals.len(), "step {}: {} iterations logged, {} residuals", k, iterations.len(), a.residuals.len());
        ensure!(iterations.len() <= a.residuals.len(), "step {}: {} iterations logged, {} residuals", k, iterations.len(), a.residuals.len());
        for (i, (number, e)) in iterations.iter().enumerate() {
            ensure!(*number == i, "step {}: iteration {} is called {}", k, i, number);
            let want = a.residuals[i];
            // the arclength residual has one component more
            ensure!(shows(*e, want, 2) || (!me.natural() && *e >= 0.99 * want && e.is_finite()), "step {} iteration {}: residual {} in the log and {} in the run", k, i, e, want);
        }
    }
    // report
    let stats = quiet.get_stats();
    let counters = [
        ("Number of function evaluations", stats.n_function),
        ("Number of Jacobian evaluations", stats.n_jacobian),
        ("Number of factorizations", stats.n_factor),
        ("Number of lin sys solutions", stats.n_lin_sol),
        ("Number of accepted steps", stats.n_accepted),
        ("Number of rejected steps", stats.n_rejected),
        ("Number of performed steps", stats.n_steps),
        ("Number of iterations (total)", stats.n_iteration_total),
    ];
    for (name, value) in counters {
        let got = report(text, name);
        ensure!(got == if with[1] { Some(value.to_string()) } else { None }, "{}: {:?} in the log, {} in the run", name, got, value);
    }
    let h = report(text, "Last accepted/suggested stepsize").and_then(|v| v.parse::<f64>().ok());
    ensure!(h == if with[1] { Some(stats.h_accepted) } else { None }, "last stepsize {:?}", h);
    ensure!(text.contains("Total time") == (with[1] && !with[2]), "timings");
    ensure!(text.contains("Legend") == with[3], "legend");
    let status = d.status().unwrap();
    ensure!(text.contains("FAILURE") == status.failure(), "failure in the log of a run that ended with {:?}", status);
    ensure!(!status.failure() || text.contains(&format!("{:?}", status)), "the log does not say {:?}", status);
    Ok(())
}

fn logs(r: &mut Run) {
    let ddls = [Ddl::Auto(0.05), Ddl::Auto(0.3), Ddl::Constant(0.1), Ddl::List(vec![0.1, 0.05, 0.15, 0.1])];
    let nb = BRANCHES.len();
    let n_flags = r.pick(4, 16);
    r.section("logs", nb * METHODS.len() * ddls.len(), |ctx, it| {
        let (kind, n) = BRANCHES[it % nb];
        let me = METHODS[(it / nb) % METHODS.len()];
        let ddl = &ddls[it / nb / METHODS.len()];
        // sets of attempts refused at once, then one update or one residual that ends the iterations of a step
        for plan in 0..24 {
            for limit in if plan < 8 { vec![1, 2, 20] } else { vec![20] } {
                for f in 0..n_flags {
                    // iterations, statistics, hidden timings, legend
                    let with = if n_flags == 4 { [[true, true, true, false], [true, false, false, true], [false, true, false, false], [false, false, false, false]][f] } else { [f & 1 == 1, f & 2 == 2, f & 4 == 4, f & 8 == 8] };
                    let key = format!("{:?}{}/{:?}/{:?}/failing{}/limit{}/{:?}", kind, n, me, ddl, plan, limit, with);
                    ctx.case(&key, |tr| {
                        let mut c = me.config();
                        c.set_n_step_max(12).set_n_iteration_max(limit);
                        let mut job = Job { u: kind.start(n).0, l: kind.start(n).1, dir: IniDir::Pos, stop: Stop::Steps(5), ddl: ddl.clone(), plan: Plan::default(), quiet: false };
                        match plan {
                            0..8 => job.plan.attempts = (0..3).filter(|b| plan >> b & 1 == 1).map(|b| b + 1).collect(),
                            8..16 => job.plan.update = vec![(plan - 8, Act::Error, false)],
                            _ => job.plan.gg = vec![(plan - 16, Act::Value(f64::NAN), false)],
                        }
                        let mut silent = Solver::new(&c, system(kind, n, Sym::No, true))?;
                        let want = crate::sys::run(&mut silent, n, &job);
                        let path = format!("{}/log-{:x}/x.log", mc::scratch(), mc::hash_of(&key));
                        let mut c = c.clone();
                        c.set_verbose_header_footer(true).set_log_file(&path);
                        c.set_verbose_iterations(with[0]).set_verbose_stats(with[1]).set_hide_timings(with[2]).set_verbose_legend(with[3]);
                        let mut s = Solver::new(&c, system(kind, n, Sym::No, true))?;
                        let d = crate::sys::run(&mut s, n, &job);
                        let text = std::fs::read_to_string(&path);
                        let _ = std::fs::remove_file(&path);
                        let _ = std::fs::remove_dir(std::path::Path::new(&path).parent().unwrap());
                        tr.ops(d.args.ev.len());
                        for p in &d.points {
                            tr.state_f64(&[p.1, p.2]);
                        }
                        ensure!(d.text() == want.text() && d.bits() == want.bits() && d.counts == want.counts, "the log changes the results: {} and {}", d.text(), want.text());
                        if d.status().is_none() {
                            return Ok(());
                        }
                        let Ok(text) = text else { fail!("no log file") };
                        compare(&text, kind, n, me, 0.5, with, &d, &silent)
                    });
                }
            }
        }
    });
}

/// Header and footer written separately around several runs
fn separate_header(r: &mut Run) {
    r.section("separate-header", METHODS.len() * 3, |ctx, it| {
        let me = METHODS[it / 3];
        let runs = it % 3 + 1;
        for (kind, n) in [(Kind::Line, 1), (Kind::Chain, 3)] {
            let key = format!("{:?}{}/{:?}/{}", kind, n, me, runs);
            ctx.case(&key, |tr| {
                let mut c = me.config();
                let path = format!("{}/head-{:x}/x.log", mc::scratch(), mc::hash_of(&key));
                c.set_log_file(&path).set_verbose_stats(true).set_hide_timings(true);
                let mut s = Solver::new(&c, system(kind, n, Sym::No, true))?;
                s.log_header();
                let mut steps = Vec::new();
                let mut last = 0;
                for k in 0..runs {
                    tr.op();
                    let job = Job { u: kind.start(n).0, l: kind.start(n).1, dir: IniDir::Pos, stop: Stop::Steps(k + 1), ddl: Ddl::Constant(0.1), plan: Plan::default(), quiet: false };
                    let d = crate::sys::run(&mut s, n, &job);
                    ensure!(d.success(), "ended with {}", d.text());
                    ensure!(!std::path::Path::new(&path).exists(), "the log is written before the footer");
                    for p in &d.points[..d.points.len() - 1] {
                        steps.push(p.1);
                    }
                    last = d.counts.accepted;
                }
                s.log_footer();
                let text = std::fs::read_to_string(&path);
                let _ = std::fs::remove_file(&path);
                let _ = std::fs::remove_dir(std::path::Path::new(&path).parent().unwrap());
                let Ok(text) = text else { fail!("no log file") };
                let got: Vec<f64> = parse(&text)?.iter().filter_map(|l| if let Line::Step(a, _) = l { Some(*a) } else { None }).collect();
                tr.state_f64(&got);
                ensure!(got.len() == steps.len() && got.iter().zip(&steps).all(|(a, b)| shows(*a, *b, 3)), "steps {:?} instead of {:?}", got, steps);
                ensure!(report(&text, "Number of accepted steps") == Some(last.to_string()), "the report is not about the last run");
                Ok(())
            });
        }
    });
}

/// Small enough for the derivatives at both ends of the step to be the same
const STEP: f64 = 1.0 / 1048576.0;

/// Norm of the residual that the solver sees at a state (one step without predictor that is accepted at once)
fn residual_at<A>(system: &System<A>, args: &mut A, u: &[f64], l: f64, predictor: bool) -> Result<f64, String> {
    let mut c = Config::new();
    c.set_verbose_header_footer(false).set_euler_predictor(predictor).set_record_iterations_residuals(true);
    c.set_tol_abs_residual(1e300);
    let mut s = Solver::new(&c, system.clone())?;
    let (mut uu, mut ll) = (Vector::from(&u.to_vec()), l - STEP);
    let ddl = DeltaLambda::constant(STEP);
    let status = guarded(|| s.solve(args, &mut uu, &mut ll, IniDir::Pos, Stop::Steps(1), &ddl, None).map_err(|e| e.to_string()))??;
    if status != Status::Success {
        return Err(format!("{:?}", status));
    }
    let v = s.get_stats().iterations_residuals.clone().unwrap_or_default();
    if v.len() != 1 || v[0].len() != 1 {
        return Err(format!("residuals {:?}", v));
    }
    Ok(v[0][0])
}

fn norm(v: &[f64]) -> f64 {
    v.iter().fold(0.0, |m: f64, x| m.max(x.abs()))
}

/// One sample problem against its formula on a lattice of states
#[allow(clippy::too_many_arguments)]
fn sample<A: Clone>(
    ctx: &mut mc::Ctx,
    name: &str,
    sys: &System<A>,
    args: &A,
    n: usize,
    values: &[f64],
    lambdas: &[f64],
    g: &dyn Fn(&[f64], f64) -> Vec<f64>,
    gu: &dyn Fn(&[f64], f64) -> Vec<Vec<f64>>,
    gl: &dyn Fn(&[f64], f64) -> Vec<f64>,
    zeros: &[(Vec<f64>, f64, f64)],
) {
    ctx.case(&format!("{}/shape", name), |tr| {
        tr.op();
        tr.state(&(name, sys.get_ndim(), sys.get_nnz_ggu()));
        ensure!(sys.get_ndim() == n, "dimension {}", sys.get_ndim());
        for (u, l, tol) in zeros {
            let v = norm(&g(u, *l));
            ensure!(v <= *tol, "the stated solution {:?} at {} has residual {}", u, l, v);
        }
        Ok(())
    });
    for k in 0..values.len().pow(n as u32) {
        let u: Vec<f64> = mc::digits(k, values.len(), n).iter().map(|d| values[*d]).collect();
        for l in lambdas {
            ctx.case(&format!("{}/{:?}/{}", name, u, l), |tr| {
                tr.ops(3);
                tr.state_f64(&u);
                let want = norm(&g(&u, *l));
                let got = residual_at(sys, &mut args.clone(), &u, *l, false)?;
                ensure!(near(got, want, 1e-13 * (1.0 + want)), "residual {} instead of {}", got, want);
                // derivatives by the solver's own checker, its verdict on the formula being known from N01
                let mut a = args.clone();
                let size = norm(&gu(&u, *l).concat()) + 1.0;
                let checked = guarded(|| sys.check_ggu(*l, &Vector::from(&u), &mut a, 1e-6 * size));
                ensure!(matches!(checked, Ok(Ok(()))), "the derivative is refused: {:?}", checked);
                // the derivative with respect to the parameter shows in the predictor
                let m = gu(&u, *l - STEP);
                let r: Vec<f64> = gl(&u, *l - STEP).iter().map(|x| -x).collect();
                if let Some(du) = dense(&m, &r) {
                    if norm(&du) < 16.0 && norm(&m.concat()) < 1e3 {
                        let v: Vec<f64> = u.iter().zip(&du).map(|(a, b)| a + STEP * b).collect();
                        let want = norm(&g(&v, *l));
                        let got = residual_at(sys, &mut args.clone(), &u, *l, true);
                        if let Ok(got) = got {
                            ensure!(near(got, want, 1e-9 * (1.0 + want)) || !want.is_finite(), "residual {} after the predictor instead of {}", got, want);
                        } else {
                            ensure!(!want.is_finite() || want > 1e300, "{:?}", got);
                        }
                    }
                }
                Ok(())
            });
        }
    }
}

fn samples(r: &mut Run) {
    let fine = r.thorough();
    let grid: Vec<f64> = if fine { (-12..=12).map(|i| i as f64 / 4.0).collect() } else { vec![-2.0, -1.25, -0.5, 0.25, 0.75, 1.0, 1.5, 2.5] };
    let lam = [-1.0, -0.25, 0.125, 0.5, 1.0];
    r.section("samples", 12, |ctx, k| match k {
        0 => {
            for sym in [Sym::No, Sym::YesFull] {
                let (s, u, l, a) = Samples::simple_linear_problem(sym);
                sample(ctx, &format!("linear-{:?}", sym), &s, &a, 1, &grid, &lam, &|u, l| vec![u[0] - l], &|_, _| vec![vec![1.0]], &|_, _| vec![-1.0], &[(u.as_data().clone(), l, 0.0)]);
            }
        }
        1 => {
            let (s, _, _, bad, reference, a) = Samples::cubic_poly_1();
            sample(ctx, "cubic-1", &s, &a, 1, &grid, &lam, &|u, _| vec![u[0] * u[0] * u[0] - 2.0 * u[0] - 2.0], &|u, _| vec![vec![3.0 * u[0] * u[0] - 2.0]], &|_, _| vec![0.0], &[(reference.as_data().clone(), 0.0, 1e-13)]);
            ctx.case("cubic-1/flat", |tr| {
                tr.trivial();
                ensure!((3.0 * bad[0] * bad[0] - 2.0).abs() < 1e-15, "the derivative does not vanish at {}", bad[0]);
                Ok(())
            });
        }
        2 => {
            let (s, _, reference, a) = Samples::cubic_poly_2();
            sample(ctx, "cubic-2", &s, &a, 1, &grid, &lam, &|u, _| vec![(u[0] - 1.0).powi(3) + 0.512], &|u, _| vec![vec![3.0 * (u[0] - 1.0).powi(2)]], &|_, _| vec![0.0], &[(reference.as_data().clone(), 0.0, 1e-15)]);
        }
        3 => {
            let (s, _, reference, a) = Samples::two_eq_ref();
            sample(ctx, "two-ref", &s, &a, 2, &grid, &lam[1..3], &|u, _| vec![u[0].powi(3) + u[1] - 1.0, -u[0] + u[1].powi(3) + 1.0], &|u, _| vec![vec![3.0 * u[0] * u[0], 1.0], vec![-1.0, 3.0 * u[1] * u[1]]], &|_, _| vec![0.0; 2], &[(reference.as_data().clone(), 0.0, 0.0)]);
        }
        4 => {
            let (s, _, reference, a) = Samples::two_eq_nr_prob_1();
            sample(ctx, "two-1", &s, &a, 2, &grid, &lam[1..3], &|u, _| vec![u[0] * u[0] + u[1] * u[1], u[0] * u[0] - u[1] * u[1]], &|u, _| vec![vec![2.0 * u[0], 2.0 * u[1]], vec![2.0 * u[0], -2.0 * u[1]]], &|_, _| vec![0.0; 2], &[(reference.as_data().clone(), 0.0, 0.0)]);
        }
        5 => {
            let (s, _, _, bad, r1, r2, a) = Samples::two_eq_nr_prob_2();
            let gu = |u: &[f64], _: f64| vec![vec![2.0 * u[0], 2.0 * u[1]], vec![2.0 * (u[0] - 1.0), 2.0 * (u[1] - 1.0)]];
            sample(ctx, "two-2", &s, &a, 2, &grid, &lam[1..3], &|u, _| vec![u[0] * u[0] + u[1] * u[1] - 2.0, (u[0] - 1.0).powi(2) + (u[1] - 1.0).powi(2) - 2.0], &gu, &|_, _| vec![0.0; 2], &[(r1.as_data().clone(), 0.0, 1e-14), (r2.as_data().clone(), 0.0, 1e-14)]);
            ctx.case("two-2/singular", |tr| {
                tr.trivial();
                let m = gu(bad.as_data(), 0.0);
                ensure!(m[0][0] * m[1][1] - m[0][1] * m[1][0] == 0.0 && r1.as_data() != r2.as_data(), "not singular, or the two solutions are one");
                Ok(())
            });
        }
        6 => {
            let (s, u, l, ana, a) = Samples::one_eq_with_fold_point();
            let mut zeros = vec![(u.as_data().clone(), l, 0.0)];
            zeros.extend(grid.iter().map(|v| (vec![*v], ana(*v), 1e-13)));
            sample(ctx, "fold", &s, &a, 1, &grid, &lam, &|u, l| vec![u[0] - l * u[0].exp()], &|u, l| vec![vec![1.0 - l * u[0].exp()]], &|u, _| vec![-u[0].exp()], &zeros);
        }
        7 | 8 => {
            for alpha in [2.0, 3.0, 1.5] {
                let perturbation = if k == 7 { 1e-3 } else { 0.25 };
                let (s, u, l, ana, a) = Samples::singular_initial_state(alpha, perturbation);
                let plus: Vec<f64> = grid.iter().filter(|v| **v > 0.0).cloned().collect();
                let mut zeros: Vec<_> = plus.iter().map(|v| (vec![*v], ana(*v), 1e-13)).collect();
                zeros.push((u.as_data().clone(), l + perturbation.powf(alpha), 1e-15));
                sample(ctx, &format!("singular-{}-{}", alpha, perturbation), &s, &a, 1, &plus, &lam, &|u, l| vec![u[0].powf(alpha) - l], &|u, _| vec![vec![alpha * u[0].powf(alpha - 1.0)]], &|_, _| vec![-1.0], &zeros);
            }
        }
        9 | 10 => {
            // pieces of parabolas with these control points and knots
            let delta = if k == 9 { 0.0 } else { 0.5 };
            let (s, u, l, a) = Samples::bspline_problem_1(delta);
            let points = [[0.0, 0.0], [0.5, 1.0], [1.75, 1.0], [2.0 - delta, 0.0], [2.5, 0.5]];
            let knots = [0.0, 0.0, 0.0, 0.4, 0.6, 1.0, 1.0, 1.0];
            fn basis(kn: &[f64], i: usize, p: usize, t: f64) -> f64 {
                if p == 0 {
                    let last = t == 1.0 && kn[i] < 1.0 && kn[i + 1] == 1.0;
                    return if (kn[i] <= t && t < kn[i + 1]) || last { 1.0 } else { 0.0 };
                }
                let w = |a: f64, b: f64| if b == 0.0 { 0.0 } else { a / b };
                w(t - kn[i], kn[i + p] - kn[i]) * basis(kn, i, p - 1, t) + w(kn[i + p + 1] - t, kn[i + p + 1] - kn[i + 1]) * basis(kn, i + 1, p - 1, t)
            }
            let curve = |t: f64, d: usize| (0..5).map(|i| points[i][d] * basis(&knots, i, 2, t)).sum::<f64>();
            let slope = |t: f64, d: usize| {
                (0..4).map(|i| 2.0 * (points[i + 1][d] - points[i][d]) / (knots[i + 3] - knots[i + 1]) * basis(&knots[1..7], i, 1, t)).sum::<f64>()
            };
            let clip = |l: f64| l.clamp(0.0, 1.0);
            let g = |u: &[f64], l: f64| (0..2).map(|d| u[d] - curve(clip(l), d)).collect::<Vec<_>>();
            let few = [-0.5, 0.25, 1.0, 2.5];
            let params = [0.25, 0.375, 0.5, 0.5625, 0.75, 0.875, 1.0];
            for l2 in params {
                // the sample's data cannot be copied: a new one for every parameter
                for k in 0..16 {
                    let u2 = [few[k % 4], few[k / 4]];
                    ctx.case(&format!("bspline-{}/{}/{:?}", delta, l2, u2), |tr| {
                        tr.ops(3);
                        tr.state_f64(&u2);
                        let (s, _, _, mut a) = Samples::bspline_problem_1(delta);
                        let want = norm(&g(&u2, l2));
                        let got = residual_at(&s, &mut a, &u2, l2, false)?;
                        ensure!(near(got, want, 1e-13), "residual {} instead of {}", got, want);
                        let checked = guarded(|| s.check_ggu(l2, &Vector::from(&u2), &mut a, 1e-9));
                        ensure!(matches!(checked, Ok(Ok(()))), "the derivative is refused: {:?}", checked);
                        let v: Vec<f64> = (0..2).map(|d| u2[d] + STEP * slope(l2 - STEP, d)).collect();
                        let want = norm(&g(&v, l2));
                        let got = residual_at(&s, &mut a, &u2, l2, true)?;
                        ensure!(near(got, want, 1e-9), "residual {} after the predictor instead of {}", got, want);
                        Ok(())
                    });
                }
            }
            ctx.case(&format!("bspline-{}/start", delta), |tr| {
                tr.trivial();
                let _ = (&s, &a);
                ensure!(norm(&g(u.as_data(), l)) == 0.0, "the start is no solution");
                Ok(())
            });
        }
        _ => {
            for radius in [0.5, 1.0, 3.0] {
                let (s, u, l, a) = Samples::circle_ul(radius);
                sample(ctx, &format!("circle-{}", radius), &s, &a, 1, &grid, &lam, &|u, l| vec![u[0] * u[0] + l * l - radius * radius], &|u, _| vec![vec![2.0 * u[0]]], &|_, l| vec![2.0 * l], &[(u.as_data().clone(), l, 4e-15)]);
            }
        }
    });
}
