// N03: user state stays consistent across failures; reuse equals fresh; statistics equal calls.
use crate::n01::{all_solved, set_control, Me, METHODS, TOLS};
use crate::sys::*;
use mc::{digits, ensure, fail, Outcome, Run, Trace};
use russell_nonlin::*;
use russell_sparse::Sym;

pub fn run(r: &mut Run) {
    r.level("fault_enumeration", "every call of every callback made to fail in turn (and pairs of failing attempts), with the protocol monitored on each run; all histories of solves on the same object");
    r.assume("secondary state follows the increments of u, as in a history-dependent material");
    faults(r);
    pairs(r);
    histories(r);
    terminal(r);
    residuals(r);
    matrix_files(r);
}

const SYSTEMS: [(Kind, usize); 6] =
    [(Kind::Line, 1), (Kind::Chain, 1), (Kind::Chain, 3), (Kind::Helix, 2), (Kind::SCurve, 1), (Kind::Circle, 1)];

fn modes(thorough: bool) -> Vec<Ddl> {
    let mut v = vec![Ddl::Auto(0.05), Ddl::Auto(0.3), Ddl::Constant(0.1), Ddl::List(vec![0.1, 0.05, 0.15, 0.1])];
    if thorough {
        v.push(Ddl::Auto(0.01));
        v.push(Ddl::Constant(0.25));
    }
    v
}

fn same(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits())
}

/// The protocol of the callbacks, the state and the statistics
pub fn protocol(n: usize, job: &Job, d: &Done, hooks: bool) -> Outcome {
    if let Err(e) = &d.res {
        fail!("{}", e);
    }
    let auto = job.ddl.auto();
    let failed = matches!(&d.res, Ok(Err(_)));
    let mut acc = (job.u.clone(), job.l);
    let mut in_attempt = false;
    let mut saved = false; // a backup that was not restored yet
    let mut after_backup = false;
    let mut last_update: Option<(Vec<f64>, f64)> = None;
    let mut failing = false; // the attempt has failed by an update
    let (mut n_gg, mut n_jac, mut attempts, mut accepted, mut restores) = (0, 0, 0, 0, 0);
    let mut first_out = true;
    for (at, e) in d.args.ev.iter().enumerate() {
        match e {
            Ev::Backup => {
                ensure!(!in_attempt, "event {}: a new attempt begins although the previous one is neither accepted nor restored", at);
                ensure!(!after_backup, "event {}: two backups in a row", at);
                saved = true;
                after_backup = true;
            }
            Ev::Prepare => {
                ensure!(!auto || after_backup, "event {}: the iterations are prepared without a backup", at);
                ensure!(!in_attempt, "event {}: prepared twice", at);
                after_backup = false;
                in_attempt = true;
                failing = false;
                attempts += 1;
                last_update = None;
            }
            Ev::Restore => {
                ensure!(saved, "event {}: restore without a backup", at);
                ensure!(in_attempt, "event {}: restore outside of an attempt", at);
                saved = false;
                in_attempt = false;
                restores += 1;
            }
            Ev::Update(first, u0, u1, l0, l1, act) => {
                ensure!(in_attempt, "event {}: update outside of an attempt", at);
                ensure!(!failing, "event {}: update after a failed update", at);
                ensure!(*first == last_update.is_none(), "event {}: the first-update flag is {}", at, first);
                ensure!(same(u0, &acc.0) && l0.to_bits() == acc.1.to_bits(), "event {}: the update starts from ({:?}, {}) and not from the last accepted point ({:?}, {})", at, u0, l0, acc.0, acc.1);
                last_update = Some((u1.clone(), *l1));
                failing = matches!(act, Act::Error | Act::Stop);
            }
            Ev::Gg(l, u) => {
                n_gg += 1;
                if hooks {
                    ensure!(in_attempt && !failing, "event {}: residual evaluated outside of the iterations", at);
                    if let Some((uu, ll)) = &last_update {
                        ensure!(same(uu, u) && l.to_bits() == ll.to_bits(), "event {}: the residual is evaluated at a point for which the secondary state was not updated", at);
                    } else {
                        fail!("event {}: residual evaluated before the secondary state is updated", at);
                    }
                }
            }
            Ev::Jac(..) => n_jac += 1,
            Ev::Out(u, l, _) => {
                if first_out {
                    ensure!(same(u, &job.u) && l.to_bits() == job.l.to_bits(), "the first output is not the initial state");
                    first_out = false;
                } else {
                    accepted += 1;
                    if hooks {
                        ensure!(in_attempt && !failing, "event {}: output without a successful attempt", at);
                        let (uu, ll) = last_update.clone().unwrap();
                        ensure!(same(&uu, u) && ll.to_bits() == l.to_bits(), "event {}: accepted ({:?}, {}) but the last update was for ({:?}, {})", at, u, l, uu, ll);
                    }
                    in_attempt = false;
                    saved = false;
                }
                acc = (u.clone(), *l);
            }
        }
    }
    ensure!(same(&d.u, &acc.0) && d.l.to_bits() == acc.1.to_bits(), "the state is ({:?}, {}) but the last accepted point is ({:?}, {}); {}", d.u, d.l, acc.0, acc.1, d.text());
    if hooks && !failed && auto {
        // whatever the status is, the secondary state belongs to the last accepted point
        ensure!(!in_attempt, "ended with {} without restoring the secondary state", d.text());
        for i in 0..n {
            ensure!((d.args.z[i] - d.u[i]).abs() < 1e-12 * (1.0 + d.u[i].abs()), "the secondary state is {} for u = {} ({})", d.args.z[i], d.u[i], d.text());
        }
    }
    if !job.quiet {
        ensure!(n_gg == d.args.n_gg && n_jac == d.args.n_jac, "lost events");
    }
    // statistics
    let c = &d.counts;
    if d.args.n_out > 0 || d.args.n_jac > 0 {
        ensure!(c.function == d.args.n_gg, "{} functions counted for {} calls", c.function, d.args.n_gg);
        ensure!(c.jacobian == d.args.n_jac, "{} Jacobians counted for {} calls", c.jacobian, d.args.n_jac);
        ensure!(c.iterations == d.args.n_gg, "{} iterations counted for {} residual calls", c.iterations, d.args.n_gg);
        ensure!(c.accepted == accepted, "{} accepted steps counted for {} outputs", c.accepted, accepted);
        ensure!(c.factor <= c.jacobian && c.factor + 1 >= c.jacobian, "{} factorizations counted for {} Jacobians", c.factor, c.jacobian);
        if hooks {
            ensure!(c.steps == attempts, "{} steps counted for {} attempts", c.steps, attempts);
            ensure!(restores >= c.rejected && restores <= c.rejected + 1, "{} rejected steps counted for {} restores", c.rejected, restores);
            let ended_bad = usize::from(!d.success());
            ensure!(c.steps >= c.accepted + c.rejected && c.steps <= c.accepted + c.rejected + ended_bad, "{} steps, {} accepted, {} rejected ({})", c.steps, c.accepted, c.rejected, d.text());
        }
    }
    Ok(())
}

fn trace(tr: &mut Trace, d: &Done) {
    tr.ops(d.args.ev.len());
    for (u, l, h) in &d.points {
        let mut v = u.clone();
        v.push(*l);
        v.push(*h);
        tr.state_f64(&v);
    }
}

fn job_of(kind: Kind, n: usize, ddl: &Ddl, stop: Stop) -> Job {
    let (u, l) = kind.start(n);
    Job { u, l, dir: IniDir::Pos, stop, ddl: ddl.clone(), plan: Plan::default(), quiet: false }
}

fn config_of(me: Me, variant: usize) -> Config {
    let mut c = me.config();
    c.set_n_step_max(60);
    match variant {
        1 => {
            c.set_debug_predictor(true).set_n_cont_failure_max(2);
        }
        2 => {
            c.set_enable_precise_stop_u_comp(true).set_record_iterations_residuals(true);
            set_control(&mut c, 2);
        }
        _ => (),
    }
    c
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Where {
    Gg,
    Jac,
    Update,
    Out,
}

/// Every call of every callback fails in turn
fn faults(r: &mut Run) {
    let ddls = modes(r.thorough());
    let nd = ddls.len();
    let n_steps = r.pick(5, 9);
    r.section("single-faults", SYSTEMS.len() * METHODS.len() * nd * 3, |ctx, it| {
        let (kind, n) = SYSTEMS[it % SYSTEMS.len()];
        let me = METHODS[(it / SYSTEMS.len()) % METHODS.len()];
        let di = (it / SYSTEMS.len() / METHODS.len()) % nd;
        let variant = it / SYSTEMS.len() / METHODS.len() / nd;
        let c = config_of(me, variant);
        let (u0, _) = kind.start(n);
        let stop = if variant == 2 { Stop::MaxCompU(0, u0[0] + 0.2) } else { Stop::Steps(n_steps) };
        for hooks in [true, false] {
            let base = job_of(kind, n, &ddls[di], stop);
            let clean = {
                let mut s = Solver::new(&c, system(kind, n, Sym::No, hooks)).unwrap();
                crate::sys::run(&mut s, n, &base)
            };
            let name = format!("{:?}{}/{:?}/steps{}/variant{}/hooks={}", kind, n, me, di, variant, hooks);
            ctx.case(&format!("{}/clean", name), |tr| {
                trace(tr, &clean);
                protocol(n, &base, &clean, hooks)?;
                all_solved(kind, n, me, &TOLS[0], &base, &clean)
            });
            for (place, total) in [(Where::Gg, clean.args.n_gg), (Where::Jac, clean.args.n_jac), (Where::Update, clean.args.n_update), (Where::Out, clean.args.n_out)] {
                for k in 0..total + 1 {
                    for (wi, what) in [Act::Error, Act::Stop, Act::Value(f64::NAN), Act::Value(f64::INFINITY)].into_iter().enumerate() {
                        let valid = match what {
                            Act::Stop => matches!(place, Where::Update | Where::Out),
                            Act::Value(_) => matches!(place, Where::Gg | Where::Jac),
                            _ => true,
                        };
                        if !valid {
                            continue;
                        }
                        for later in [false, true] {
                            ctx.case(&format!("{}/{:?}/call{}/what{}/later={}", name, place, k, wi, later), |tr| {
                                let mut job = base.clone();
                                let f = vec![(k, what, later)];
                                match place {
                                    Where::Gg => job.plan.gg = f,
                                    Where::Jac => job.plan.jac = f,
                                    Where::Update => job.plan.update = f,
                                    Where::Out => job.plan.out = f,
                                }
                                let mut s = Solver::new(&c, system(kind, n, Sym::No, hooks))?;
                                let d = crate::sys::run(&mut s, n, &job);
                                trace(tr, &d);
                                protocol(n, &job, &d, hooks)?;
                                all_solved(kind, n, me, &TOLS[0], &job, &d)?;
                                // the same up to the fault
                                let seen = match place {
                                    Where::Gg => d.args.n_gg,
                                    Where::Jac => d.args.n_jac,
                                    Where::Update => d.args.n_update,
                                    Where::Out => d.args.n_out,
                                };
                                let hit = seen > k;
                                ensure!(hit == (k < total), "call {} was {} reached", k, if hit { "" } else { "not" });
                                if !hit {
                                    ensure!(d.text() == clean.text() && d.bits() == clean.bits(), "differs from the run without faults");
                                    return Ok(());
                                }
                                match (place, what) {
                                    (Where::Gg | Where::Jac | Where::Out, Act::Error) => {
                                        ensure!(matches!(&d.res, Ok(Err(e)) if e == FAIL), "{} instead of the error of the callback", d.text());
                                        ensure!(seen == k + 1, "the callback was called again after its error");
                                    }
                                    (Where::Gg, _) => {
                                        ensure!(d.status() == Some(Status::NanOrInfResidual), "{} for a residual that is not finite", d.text());
                                    }
                                    (Where::Jac, _) => ensure!(!d.success() || !later, "success although no Jacobian was finite"),
                                    (Where::Out, _) => ensure!(d.success() && seen == k + 1, "{} after a graceful stop", d.text()),
                                    (Where::Update, Act::Stop) => {
                                        ensure!(d.status() == Some(Status::SecondaryUpdateTerminate), "{} although the update asked to terminate", d.text());
                                        ensure!(seen == k + 1, "the update was called again after it asked to terminate");
                                    }
                                    (Where::Update, _) => {
                                        if !base.ddl.auto() {
                                            ensure!(d.status() == Some(Status::SecondaryUpdateError(FAIL)), "{} although the update failed", d.text());
                                        } else if later {
                                            let stopped = matches!(d.status(), Some(Status::ContinuedFailure | Status::SmallStepsize | Status::SecondaryUpdateError(FAIL)));
                                            ensure!(stopped, "{} although every update failed", d.text());
                                        }
                                    }
                                }
                                Ok(())
                            });
                        }
                    }
                }
            }
        }
    });
}

/// All sets of failing attempts (and one update that terminates)
fn pairs(r: &mut Run) {
    let width = r.pick(7, 10);
    let n_pat = 1usize << width;
    let kinds = [(Kind::Chain, 2), (Kind::SCurve, 1)];
    r.section("failing-attempts", kinds.len() * 3 * n_pat, |ctx, it| {
        let (kind, n) = kinds[it % kinds.len()];
        let me = [Me::Natural, Me::Bordering, Me::Full][(it / kinds.len()) % 3];
        let bits = digits(it / kinds.len() / 3, 2, width);
        for variant in 0..3 {
            for term in [None, Some(1), Some(4), Some(7)] {
                let text: String = bits.iter().map(|b| if *b == 1 { 'x' } else { '-' }).collect();
                ctx.case(&format!("{:?}/{:?}/{}/variant{}/{:?}", kind, me, text, variant, term), |tr| {
                    let c = config_of(me, variant);
                    let (u0, _) = kind.start(n);
                    let stop = if variant == 2 { Stop::MaxCompU(0, u0[0] + 0.2) } else { Stop::Steps(4) };
                    let mut job = job_of(kind, n, &Ddl::Auto(0.05), stop);
                    job.plan.attempts = (0..width).filter(|i| bits[*i] == 1).collect();
                    if let Some(k) = term {
                        job.plan.update = vec![(k, Act::Stop, false)];
                    }
                    let mut s = Solver::new(&c, system(kind, n, Sym::No, true))?;
                    let d = crate::sys::run(&mut s, n, &job);
                    trace(tr, &d);
                    protocol(n, &job, &d, true)?;
                    // debugging values: one predictor for each accepted step
                    if variant == 1 && d.success() {
                        ensure!(d.debug.0.len() == d.counts.accepted, "{} predictors for {} accepted steps", d.debug.0.len(), d.counts.accepted);
                        let mut want = Vec::new();
                        let mut pending = 0.0;
                        for (i, e) in d.args.ev.iter().enumerate() {
                            match e {
                                Ev::Update(true, _, _, _, l1, _) => pending = *l1,
                                Ev::Out(..) if i > 1 => want.push(pending),
                                _ => (),
                            }
                        }
                        let m = want.len() - d.debug.0.len();
                        ensure!(same(&want[m..], &d.debug.0), "predictors {:?}, expected {:?}", d.debug.0, want);
                    }
                    Ok(())
                });
            }
        }
    });
}

/// Histories of solves on the same object
fn histories(r: &mut Run) {
    let len = r.pick(2, 3);
    let systems = [(Kind::Chain, 2), (Kind::SCurve, 1), (Kind::Helix, 2), (Kind::Piece, 1)];
    let n_jobs = 12;
    let n_hist = mc::pow(n_jobs, len);
    let make = move |kind: Kind, n: usize, i: usize| -> Job {
        let (u0, l0) = kind.start(n);
        let mut j = match i {
            0 => job_of(kind, n, &Ddl::Constant(0.1), Stop::Steps(3)),
            1 => job_of(kind, n, &Ddl::Auto(0.1), Stop::Steps(5)),
            2 => job_of(kind, n, &Ddl::List(vec![0.1, 0.2, 0.05]), Stop::Steps(5)),
            3 => job_of(kind, n, &Ddl::Auto(0.2), Stop::MaxLambda(l0 + 0.5)),
            4 => Job { dir: IniDir::Neg, stop: Stop::MinLambda(l0 - 0.4), ..job_of(kind, n, &Ddl::Auto(0.1), Stop::Steps(1)) },
            5 => job_of(kind, n, &Ddl::Auto(0.1), Stop::MaxCompU(0, u0[0] + 0.3)),
            6 => job_of(kind, n, &Ddl::Auto(0.1), Stop::MinLambda(l0 + 1.0)), // refused
            _ => job_of(kind, n, &Ddl::Auto(0.15), Stop::Steps(6)),
        };
        match i {
            7 => j.plan.attempts = vec![1, 3, 4],
            8 => j.plan.gg = vec![(3, Act::Error, false)],
            9 => j.plan.gg = vec![(4, Act::Value(f64::NAN), false)],
            10 => j.plan.attempts = (2..40).collect(),
            11 => j.plan.jac = vec![(2, Act::Error, false)],
            _ => (),
        }
        j
    };
    r.section("histories", systems.len() * METHODS.len() * 3 * n_hist, |ctx, it| {
        let (kind, n) = systems[it % systems.len()];
        let me = METHODS[(it / systems.len()) % METHODS.len()];
        let variant = (it / systems.len() / METHODS.len()) % 3;
        let hist = digits(it / systems.len() / METHODS.len() / 3, n_jobs, len);
        ctx.case(&format!("{:?}/{:?}/variant{}/{:?}", kind, me, variant, hist).replace(' ', ""), |tr| {
            let c = config_of(me, variant);
            let mut s = Solver::new(&c, system(kind, n, Sym::No, true))?;
            for (at, i) in hist.iter().enumerate() {
                let job = make(kind, n, *i);
                let d = crate::sys::run(&mut s, n, &job);
                trace(tr, &d);
                let mut fresh = Solver::new(&c, system(kind, n, Sym::No, true))?;
                let f = crate::sys::run(&mut fresh, n, &job);
                ensure!(d.text() == f.text(), "solve {}: {} but a fresh solver gives {}", at, d.text(), f.text());
                if *i == 6 {
                    continue; // refused: nothing was computed
                }
                ensure!(d.bits() == f.bits(), "solve {}: results differ from those of a fresh solver", at);
                ensure!(d.args.ev == f.args.ev || d.args.ev.len() == f.args.ev.len(), "solve {}: {} events, a fresh solver has {}", at, d.args.ev.len(), f.args.ev.len());
                ensure!(d.counts == f.counts, "solve {}: statistics {:?}, a fresh solver has {:?}", at, d.counts, f.counts);
                protocol(n, &job, &d, true)?;
            }
            Ok(())
        });
    });
}

/// Failures of the iterations themselves: limits that cannot be met
fn terminal(r: &mut Run) {
    let kinds = [(Kind::Wall, 1), (Kind::NoRoot, 1), (Kind::Cycle, 1), (Kind::Singular, 1), (Kind::Slow, 2), (Kind::Fold, 1), (Kind::Circle, 1), (Kind::Chain, 5)];
    r.section("failing-iterations", kinds.len() * METHODS.len(), |ctx, it| {
        let (kind, n) = kinds[it % kinds.len()];
        let me = METHODS[it / kinds.len()];
        for variant in 0..3 {
            for lim in [1, 2, 3, 20] {
                for (di, ddl) in [Ddl::Auto(0.1), Ddl::Auto(0.7), Ddl::Constant(0.3), Ddl::Auto(1e-9)].into_iter().enumerate() {
                    for large in [1e-12, 1e-6, 1e-2, 1e8] {
                        for cont in [1, 2, 5, 50] {
                            for stop in [Stop::MaxLambda(2.0), Stop::Steps(6), Stop::MaxCompU(0, 4.0), Stop::MinCompU(0, -4.0)] {
                                ctx.case(&format!("{:?}{}/{:?}/variant{}/limit{}/steps{}/large{}/cont{}/{:?}", kind, n, me, variant, lim, di, large, cont, stop).replace(' ', ""), |tr| {
                                    let mut c = config_of(me, variant);
                                    c.set_n_iteration_max(lim).set_delta_max_allowed(large).set_n_cont_failure_max(cont);
                                    let job = job_of(kind, n, &ddl, stop);
                                    let mut s = Solver::new(&c, system(kind, n, Sym::No, true))?;
                                    let d = crate::sys::run(&mut s, n, &job);
                                    trace(tr, &d);
                                    protocol(n, &job, &d, true)?;
                                    all_solved(kind, n, me, &TOLS[0], &job, &d)
                                });
                            }
                        }
                    }
                }
            }
        }
    });
}

/// The residuals recorded for each converged attempt, and what is derived from them
fn residuals(r: &mut Run) {
    let ddls = modes(true);
    let nd = ddls.len();
    let n_plan = 8;
    r.section("iteration-residuals", BRANCHES.len() * METHODS.len() * nd * n_plan, |ctx, it| {
        let (kind, n) = BRANCHES[it % BRANCHES.len()];
        let me = METHODS[(it / BRANCHES.len()) % METHODS.len()];
        let di = (it / BRANCHES.len() / METHODS.len()) % nd;
        let plan = it / BRANCHES.len() / METHODS.len() / nd;
        for (t, tol) in TOLS.iter().enumerate() {
            for record in [true, false] {
                ctx.case(&format!("{:?}{}/{:?}/steps{}/failing{}/tol{}/record={}", kind, n, me, di, plan, t, record), |tr| {
                    let mut c = me.config();
                    crate::n01::set_tol(&mut c, tol);
                    c.set_n_step_max(60).set_record_iterations_residuals(record);
                    let mut job = job_of(kind, n, &ddls[di], Stop::Steps(6));
                    job.plan.attempts = (0..3).filter(|b| plan >> b & 1 == 1).map(|b| b + 1).collect();
                    let mut s = Solver::new(&c, system(kind, n, Sym::No, true))?;
                    let d = crate::sys::run(&mut s, n, &job);
                    trace(tr, &d);
                    protocol(n, &job, &d, true)?;
                    let stats = s.get_stats();
                    if !record {
                        ensure!(stats.iterations_residuals.is_none(), "residuals recorded although this was not asked for");
                        ensure!(stats.get_convergence_rates(-1e9, 1e9).is_empty(), "rates without residuals");
                        return Ok(());
                    }
                    // norms of the residuals of each accepted attempt, and of the other ones
                    let mut lists: Vec<(bool, Vec<f64>)> = Vec::new();
                    for (at, e) in d.args.ev.iter().enumerate() {
                        match e {
                            Ev::Prepare => lists.push((false, Vec::new())),
                            Ev::Gg(l, u) => lists.last_mut().unwrap().1.push(kind.g(n, u, *l).iter().fold(0.0, |m: f64, v| m.max(v.abs()))),
                            Ev::Out(..) if at > 0 && !lists.is_empty() => lists.last_mut().unwrap().0 = true,
                            _ => (),
                        }
                    }
                    let got = stats.iterations_residuals.clone().unwrap_or_default();
                    // every accepted attempt is there, in order; others may be only if they converged
                    let mut k = 0;
                    for (accepted, list) in &lists {
                        let here = k < got.len()
                            && got[k].len() == list.len()
                            && got[k].iter().zip(list).all(|(a, b)| if me.natural() { a.to_bits() == b.to_bits() } else { *a >= *b && a.is_finite() });
                        ensure!(here || !accepted, "record {} is {:?} for an accepted attempt with residuals {:?}", k, got.get(k), list);
                        if here && !list.is_empty() {
                            k += 1;
                        }
                    }
                    ensure!(k == got.len(), "{} records, {} of them belong to attempts", got.len(), k);
                    // the number of iterations: updates done
                    let top = 6;
                    let h = stats.get_histogram_of_iterations(top, '*', 10);
                    let mut want = vec![0; top - 1];
                    for g in &got {
                        let m = if g.len() >= 2 { g.len() - 1 } else { g.len() };
                        if m < top - 1 {
                            want[m] += 1;
                        }
                    }
                    ensure!(h.get_counts() == &want, "histogram {:?} instead of {:?}", h.get_counts(), want);
                    // rates of convergence
                    for (lo, hi) in [(f64::NEG_INFINITY, f64::INFINITY), (-1e300, 1e300), (0.9, 2.1), (1.5, 1.8)] {
                        let want: Vec<f64> = got
                            .iter()
                            .filter(|g| g.len() >= 3)
                            .map(|g| {
                                let m = g.len();
                                (g[m - 1] / g[m - 2]).ln() / (g[m - 2] / g[m - 3]).ln()
                            })
                            .filter(|v| v.is_finite() && *v >= lo && *v <= hi)
                            .collect();
                        let rates = stats.get_convergence_rates(lo, hi);
                        ensure!(rates.len() == want.len() && rates.iter().zip(&want).all(|(a, b)| mc::rel(*a, *b, 1e-12)), "rates {:?} instead of {:?}", rates, want);
                    }
                    // solving again with the same solver: the records of the new solve only
                    let again = crate::sys::run(&mut s, n, &job);
                    trace(tr, &again);
                    let second = s.get_stats().iterations_residuals.clone().unwrap_or_default();
                    ensure!(second.len() == got.len(), "{} records after the second solve, {} after the first", second.len(), got.len());
                    ensure!(second.iter().zip(&got).all(|(a, b)| same(a, b)), "the records of the second solve differ");
                    Ok(())
                });
            }
        }
    });
}

/// The matrix is written at the first Jacobian after the requested number of accepted steps (one case at a time: the path is fixed)
fn matrix_files(r: &mut Run) {
    let dir = std::path::Path::new("/tmp/russell_nonlin");
    let existed = dir.exists();
    let files = || -> Vec<(std::path::PathBuf, std::time::SystemTime)> {
        let entry = |e: std::fs::DirEntry| Some((e.path(), e.metadata().ok()?.modified().ok()?));
        let mut v: Vec<_> = std::fs::read_dir(dir).map(|d| d.filter_map(|e| e.ok()).filter_map(entry).collect()).unwrap_or_default();
        v.sort();
        v
    };
    let steps = r.pick(4, 8);
    r.section("matrix-files", 1, |ctx, _| {
        for (kind, n) in SYSTEMS {
            for me in METHODS {
                for nstep in 0..=steps {
                    for (di, ddl) in [Ddl::Constant(0.1), Ddl::Auto(0.1)].iter().enumerate() {
                        ctx.case(&format!("{:?}{}/{:?}/after{}/steps{}", kind, n, me, nstep, di), |tr| {
                            let old = files();
                            let job = job_of(kind, n, ddl, Stop::Steps(steps));
                            let plain = me.config();
                            let mut c = me.config();
                            let mut free = Solver::new(&plain, system(kind, n, Sym::No, true))?;
                            let clean = crate::sys::run(&mut free, n, &job);
                            c.set_write_matrix_after_nstep_and_stop(nstep);
                            let mut s = Solver::new(&c, system(kind, n, Sym::No, true))?;
                            let d = crate::sys::run(&mut s, n, &job);
                            let new: Vec<_> = files().into_iter().filter(|f| !old.contains(f)).map(|f| f.0).collect();
                            let read = |ext: &str| new.iter().find(|f| f.extension().map_or(false, |e| e == ext)).map(|f| russell_sparse::read_matrix_market(f, russell_sparse::MMsym::LeaveAsLower));
                            let mtx = read("mtx");
                            let vis = new.iter().any(|f| f.extension().map_or(false, |e| e == "smat"));
                            for f in &new {
                                let _ = std::fs::remove_file(f);
                            }
                            trace(tr, &d);
                            // the Jacobians of the run without the option, after each number of accepted steps
                            let mut outs = 0;
                            let mut first: Option<(usize, f64, Vec<f64>)> = None;
                            let mut n_jac = 0;
                            for e in &clean.args.ev {
                                match e {
                                    Ev::Out(..) => outs += 1,
                                    Ev::Jac(l, u) => {
                                        n_jac += 1;
                                        if outs > nstep + 1 && first.is_none() {
                                            first = Some((n_jac, *l, u.clone()));
                                        }
                                    }
                                    _ => (),
                                }
                            }
                            let Some((k, l, u)) = first else {
                                ensure!(d.text() == clean.text() && d.bits() == clean.bits(), "stopped with {} although {} steps were not reached", d.text(), nstep);
                                ensure!(new.is_empty(), "files written");
                                return Ok(());
                            };
                            ensure!(matches!(&d.res, Ok(Err(_))), "ended with {} and not by the option", d.text());
                            ensure!(d.args.n_jac == k && d.counts.accepted == clean.args.ev.iter().take_while(|e| !matches!(e, Ev::Jac(ll, uu) if *ll == l && *uu == u)).filter(|e| matches!(e, Ev::Out(..))).count() - 1, "stopped at Jacobian {} (after {} accepted steps) instead of {}", d.args.n_jac, d.counts.accepted, k);
                            ensure!(vis, "no file for the visualisation");
                            let Some(Ok((Some(coo), None))) = mtx else {
                                fail!("no readable matrix among {:?}", new);
                            };
                            let (m, _, _, _) = coo.get_info();
                            ensure!(m == if me == Me::Full { n + 1 } else { n }, "the matrix in the file has {} rows", m);
                            let a = coo.as_dense();
                            let (jj, gl) = kind.jac(n, &u, l);
                            for i in 0..n {
                                for j in 0..n {
                                    ensure!(mc::near(a.get(i, j), jj[i][j], 1e-13), "entry ({},{}) in the file is {} instead of {}", i, j, a.get(i, j), jj[i][j]);
                                }
                                if me == Me::Full {
                                    ensure!(mc::near(a.get(i, n), gl[i], 1e-13), "entry ({},{}) in the file is {} instead of {}", i, n, a.get(i, n), gl[i]);
                                }
                            }
                            Ok(())
                        });
                    }
                }
            }
        }
    });
    if !existed {
        let _ = std::fs::remove_dir(dir);
    }
}
