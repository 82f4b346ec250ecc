// N01: every accepted point solves the system; failures are never called success.
use crate::n02::with_larger;
use crate::sys::*;
use mc::{ensure, fail, guarded, Ctx, Run};
use russell_lab::Vector;
use russell_nonlin::*;
use russell_sparse::Sym;

pub fn run(r: &mut Run) {
    r.level("exploration", "all systems x methods x storage x predictors x tolerances x iteration limits x stepsize controls x increments x directions x stops; every residual call made non-finite and every Jacobian call spoiled in turn");
    r.assume("the sparse solver is UMFPACK with general or full symmetric storage");
    r.assume("a point counts as solved if the residual or the smallest correction that removes it is within the configured tolerance");
    configurations(r);
    hopeless(r);
    spoiled_residual(r);
    spoiled_jacobian(r);
    spoiled_inputs(r);
    jacobian_checker(r);
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Me {
    Natural,
    NaturalNoPredictor,
    Bordering,
    Full,
}

pub const METHODS: [Me; 4] = [Me::Natural, Me::NaturalNoPredictor, Me::Bordering, Me::Full];

impl Me {
    pub fn natural(&self) -> bool {
        matches!(self, Me::Natural | Me::NaturalNoPredictor)
    }
    pub fn config(&self) -> Config {
        let mut c = Config::new();
        c.set_verbose_header_footer(false);
        match self {
            Me::Natural => c.set_method(Method::Natural),
            Me::NaturalNoPredictor => c.set_method(Method::Natural).set_euler_predictor(false),
            Me::Bordering => c.set_method(Method::Arclength),
            Me::Full => c.set_method(Method::Arclength).set_bordering(false),
        };
        c
    }
}

pub const TOLS: [Tol; 5] = [
    Tol { residual: 1e-10, abs: 1e-10, rel: 1e-7, only_residual: false },
    Tol { residual: 1e-12, abs: 1e-4, rel: 1e-4, only_residual: false },
    Tol { residual: 1e-4, abs: 1e-12, rel: 1e-12, only_residual: false },
    Tol { residual: 1e-9, abs: 1e-10, rel: 1e-7, only_residual: true },
    Tol { residual: 1e-12, abs: 1e-12, rel: 1e-12, only_residual: false },
];

pub fn set_tol(c: &mut Config, t: &Tol) {
    c.set_tol_abs_residual(t.residual).set_tol_delta(t.abs, t.rel).set_disable_rel_delta_analysis(t.only_residual);
}

pub const N_CONTROL: usize = 18;

pub fn set_control(c: &mut Config, i: usize) {
    match i {
        0 => c,
        1 => c.set_tg_control_pid_vcc(false),
        2 => c.set_tg_control_pid_vcc(false).set_tg_control_soderlind(SoderlindClass::Ho321),
        3 => c.set_nr_control_enabled(true).set_tg_control_enabled(false),
        4 => c.set_nr_control_enabled(true).set_tg_control_rdiff_type(RdiffType::Max),
        5 => c.set_tg_control_pid_vcc(false).set_tg_control_soderlind(SoderlindClass::H321),
        6 => c.set_tg_control_pid_vcc(false).set_tg_control_soderlind(SoderlindClass::Ho211),
        7 => c.set_tg_control_pid_vcc(false).set_tg_control_soderlind(SoderlindClass::H211b(4.0)),
        8 => c.set_tg_control_pid_vcc(false).set_tg_control_soderlind(SoderlindClass::Ho312),
        9 => c.set_tg_control_pid_vcc(false).set_tg_control_soderlind(SoderlindClass::H312b(8.0)),
        10 => c.set_tg_control_pid_vcc(false).set_tg_control_soderlind(SoderlindClass::H312PID),
        11 => c.set_nr_control_enabled(true).set_nr_control_n_opt(1).set_nr_control_beta(1.0),
        12 => c.set_nr_control_enabled(true).set_nr_control_n_opt(8).set_nr_control_beta(0.25).set_tg_control_tol(2.0),
        13 => c.set_tg_control_tol(1e-3).set_tg_control_rdiff_min(1e-3).set_tg_control_rho_for_tiny_rdiff(2.0),
        14 => c.set_n_cont_residual_divergence_max(1).set_n_cont_delta_divergence_max(1).set_n_cont_rejection_max(1).set_n_cont_failure_max(1),
        15 => c.set_n_cont_residual_divergence_max(30).set_n_cont_delta_divergence_max(30).set_m_failure(0.9),
        16 => c.set_tg_control_pid_vcc(false).set_tg_control_beta1(0.5).set_tg_control_beta2(0.2).set_tg_control_beta3(0.1).set_tg_control_alpha2(0.3).set_tg_control_alpha3(0.2),
        _ => c.set_tg_control_enabled(false),
    };
}

pub fn steps(thorough: bool) -> Vec<Ddl> {
    let mut v = vec![
        Ddl::Auto(0.1),
        Ddl::Auto(0.5),
        Ddl::Constant(0.1),
        Ddl::Constant(0.25),
        Ddl::List(vec![0.1, 0.05, 0.2, 0.0125, 0.3, 0.1]),
    ];
    if thorough {
        v.push(Ddl::Auto(0.01));
        v.push(Ddl::Auto(1.0));
        v.push(Ddl::Constant(1.0));
        v.push(Ddl::List(vec![0.5, 0.25, 0.25, 0.125]));
    }
    v
}

pub fn stops(kind: Kind, n: usize, me: Me, dir: IniDir) -> Vec<Stop> {
    let (u0, l0) = kind.start(n);
    let (lo, hi) = kind.natural_range();
    let mut v = vec![Stop::Steps(12)];
    match dir {
        IniDir::Pos => v.push(Stop::MaxLambda(if me.natural() { hi } else { f64::min(hi, l0 + 1.0) })),
        IniDir::Neg => v.push(Stop::MinLambda(if me.natural() { lo } else { f64::max(lo, -2.5) })),
    }
    let i = n - 1;
    v.push(Stop::MaxCompU(i, u0[i] + 0.75));
    v.push(Stop::MinCompU(i, u0[i] - 0.75));
    v.push(Stop::MaxNormU(2.5, russell_lab::Norm::Euc, 0, n));
    v
}

/// Checks all accepted points
pub fn all_solved(kind: Kind, n: usize, me: Me, tol: &Tol, job: &Job, d: &Done) -> mc::Outcome {
    if let Err(e) = &d.res {
        fail!("{}", e);
    }
    let mut prev = (job.u.clone(), job.l);
    for (k, (u, l, _)) in d.points.iter().enumerate() {
        if k > 0 {
            solved(kind, n, me.natural(), tol, (&prev.0, prev.1), u, *l)
                .map_err(|e| format!("accepted point {} (result {}): {}", k, d.text(), e))?;
        }
        prev = (u.clone(), *l);
    }
    if let Ok(Ok(_)) = &d.res {
        // the returned state is the last accepted point
        ensure!(
            d.u.iter().zip(prev.0.iter()).all(|(a, b)| a.to_bits() == b.to_bits()) && d.l.to_bits() == prev.1.to_bits(),
            "returned ({:?}, {}) but the last accepted point is ({:?}, {}); result {}",
            d.u,
            d.l,
            prev.0,
            prev.1,
            d.text()
        );
    }
    // recordings are the accepted points
    let m = d.rec_l.len();
    ensure!(m <= d.points.len() && m + 1 >= d.points.len(), "{} recorded values for {} points", m, d.points.len());
    for k in 0..m {
        for i in 0..n {
            ensure!(d.rec_u[i][k].to_bits() == d.points[k].0[i].to_bits(), "recorded u[{}] of point {} differs", i, k);
        }
        ensure!(d.rec_l[k].to_bits() == d.points[k].1.to_bits(), "recorded l of point {} differs", k);
    }
    Ok(())
}

fn syms(kind: Kind, me: Me) -> Vec<Sym> {
    let mut v = vec![Sym::No];
    if kind.symmetric() && me != Me::Full {
        v.push(Sym::YesFull);
    }
    v
}

fn configurations(r: &mut Run) {
    let n_tol = r.pick(4, TOLS.len());
    let limits: &[usize] = if r.thorough() { &[1, 2, 3, 4, 6, 20] } else { &[1, 2, 20] };
    let ddls = steps(r.thorough());
    let mut items = Vec::new();
    for (kind, n) in with_larger() {
        for me in METHODS {
            for dir in [IniDir::Pos, IniDir::Neg] {
                for t in 0..n_tol {
                    items.push((kind, n, me, dir, t));
                }
            }
        }
    }
    r.section("configurations", items.len(), |ctx, it| {
        let (kind, n, me, dir, t) = items[it];
        for sym in syms(kind, me) {
            for &lim in limits {
                for con in 0..N_CONTROL {
                    for (di, ddl) in ddls.iter().enumerate() {
                        if (!ddl.auto() || n > 5) && con > 0 {
                            continue;
                        }
                        for (si, stop) in stops(kind, n, me, dir).iter().enumerate() {
                            one(ctx, kind, n, me, dir, &TOLS[t], sym, lim, con, ddl, *stop, &format!("{:?}{}/{:?}/{:?}/tol{}/{:?}/limit{}/control{}/steps{}/stop{}", kind, n, me, dir, t, sym, lim, con, di, si));
                        }
                    }
                }
            }
        }
    });
}

#[allow(clippy::too_many_arguments)]
fn one(ctx: &mut Ctx, kind: Kind, n: usize, me: Me, dir: IniDir, tol: &Tol, sym: Sym, lim: usize, con: usize, ddl: &Ddl, stop: Stop, key: &str) {
    ctx.case(key, |tr| {
        let mut c = me.config();
        set_tol(&mut c, tol);
        set_control(&mut c, con);
        c.set_n_iteration_max(lim).set_n_step_max(40);
        let (u, l) = kind.start(n);
        let job = Job { u, l, dir, stop, ddl: ddl.clone(), plan: Plan::default(), quiet: true };
        let mut solver = Solver::new(&c, system(kind, n, sym, false))?;
        let d = run_job(&mut solver, n, &job, tr);
        all_solved(kind, n, me, tol, &job, &d)
    });
}

fn run_job(solver: &mut Solver<Args>, n: usize, job: &Job, tr: &mut mc::Trace) -> Done {
    let d = crate::sys::run(solver, n, job);
    tr.ops(d.args.n_gg + d.args.n_jac);
    for (u, l, _) in &d.points {
        let mut v = u.clone();
        v.push(*l);
        tr.state_f64(&v);
    }
    d
}

/// Systems without a solution (or none to be found) must never give a success
fn hopeless(r: &mut Run) {
    let n_tol = TOLS.len();
    let ddls = steps(true);
    let kinds = [(Kind::Wall, 1), (Kind::NoRoot, 1), (Kind::Cycle, 1), (Kind::Singular, 1), (Kind::Slow, 2)];
    r.section("systems-without-solution", kinds.len() * METHODS.len() * n_tol, |ctx, it| {
        let (kind, n) = kinds[it % kinds.len()];
        let me = METHODS[(it / kinds.len()) % METHODS.len()];
        let t = it / kinds.len() / METHODS.len();
        for (di, ddl) in ddls.iter().enumerate() {
            for con in 0..N_CONTROL {
                if !ddl.auto() && con > 0 {
                    continue;
                }
                for lim in [1, 2, 3, 5, 10, 20, 40] {
                    for dir in [IniDir::Pos, IniDir::Neg] {
                        let far = match dir {
                            IniDir::Pos => Stop::MaxLambda(2.0),
                            IniDir::Neg => Stop::MinLambda(-2.0),
                        };
                        for (si, stop) in [far, Stop::Steps(1), Stop::Steps(3)].into_iter().enumerate() {
                            let key = format!("{:?}/{:?}/tol{}/steps{}/control{}/limit{}/{:?}/stop{}", kind, me, t, di, con, lim, dir, si);
                            ctx.case(&key, |tr| {
                                let mut c = me.config();
                                set_tol(&mut c, &TOLS[t]);
                                set_control(&mut c, con);
                                c.set_n_iteration_max(lim).set_n_step_max(40);
                                let (u, l) = kind.start(n);
                                let job = Job { u, l, dir, stop, ddl: ddl.clone(), plan: Plan::default(), quiet: true };
                                let mut solver = Solver::new(&c, system(kind, n, Sym::No, false))?;
                                let d = run_job(&mut solver, n, &job, tr);
                                all_solved(kind, n, me, &TOLS[t], &job, &d)?;
                                if matches!(kind, Kind::NoRoot | Kind::Cycle) {
                                    ensure!(!d.success(), "success for a system that has no solution to be found");
                                    ensure!(d.points.len() <= 1, "accepted points without a solution");
                                }
                                if kind == Kind::Wall && si == 0 && dir == IniDir::Pos {
                                    ensure!(d.l <= 1.0 + 1e-9, "went through the wall to {}", d.l);
                                    if d.counts.steps < 40 && ddl.auto() {
                                        ensure!(!d.success(), "success without reaching the target");
                                    }
                                }
                                Ok(())
                            });
                        }
                    }
                }
            }
        }
    });
}

const BRANCH_SMALL: [(Kind, usize); 6] =
    [(Kind::Line, 2), (Kind::Chain, 1), (Kind::Chain, 3), (Kind::Helix, 2), (Kind::SCurve, 1), (Kind::Circle, 1)];

/// Every residual evaluation in turn made not finite
fn spoiled_residual(r: &mut Run) {
    let n_tol = r.pick(2, TOLS.len());
    let ddls = steps(r.thorough());
    let nd = ddls.len();
    let n_items = BRANCH_SMALL.len() * METHODS.len() * nd * n_tol;
    r.section("residual-not-finite", n_items, |ctx, it| {
        let (kind, n) = BRANCH_SMALL[it % BRANCH_SMALL.len()];
        let me = METHODS[(it / BRANCH_SMALL.len()) % METHODS.len()];
        let di = (it / BRANCH_SMALL.len() / METHODS.len()) % nd;
        let t = [0, 3, 1, 2, 4][it / BRANCH_SMALL.len() / METHODS.len() / nd];
        let mut c = me.config();
        set_tol(&mut c, &TOLS[t]);
        let (u, l) = kind.start(n);
        let base = Job { u, l, dir: IniDir::Pos, stop: Stop::Steps(4), ddl: ddls[di].clone(), plan: Plan::default(), quiet: true };
        let total = {
            let mut s = match Solver::new(&c, system(kind, n, Sym::No, false)) {
                Ok(s) => s,
                Err(_) => return,
            };
            crate::sys::run(&mut s, n, &base).args.n_gg
        };
        for k in 0..total {
            for v in [f64::NAN, f64::INFINITY, f64::NEG_INFINITY] {
                for comp in 0..n + 1 {
                    for later in [false, true] {
                        let key = format!("{:?}{}/{:?}/steps{}/tol{}/call{}/{}/component{}/later={}", kind, n, me, di, t, k, v, comp, later);
                        ctx.case(&key, |tr| {
                            let a = if comp == n { Act::Value(v) } else { Act::Component(comp, v) };
                            let mut job = base.clone();
                            job.plan.gg = vec![(k, a, later)];
                            let mut s = Solver::new(&c, system(kind, n, Sym::No, false))?;
                            let d = run_job(&mut s, n, &job, tr);
                            all_solved(kind, n, me, &TOLS[t], &job, &d)?;
                            ensure!(!d.success(), "success although residual call {} was not finite", k);
                            Ok(())
                        });
                    }
                }
            }
        }
    });
}

/// Every Jacobian evaluation in turn spoiled
fn spoiled_jacobian(r: &mut Run) {
    let n_tol = r.pick(2, TOLS.len());
    let ddls = steps(r.thorough());
    let nd = ddls.len();
    let n_items = BRANCH_SMALL.len() * METHODS.len() * nd * n_tol;
    r.section("jacobian-spoiled", n_items, |ctx, it| {
        let (kind, n) = BRANCH_SMALL[it % BRANCH_SMALL.len()];
        let me = METHODS[(it / BRANCH_SMALL.len()) % METHODS.len()];
        let di = (it / BRANCH_SMALL.len() / METHODS.len()) % nd;
        let t = [0, 3, 1, 2, 4][it / BRANCH_SMALL.len() / METHODS.len() / nd];
        let mut c = me.config();
        set_tol(&mut c, &TOLS[t]);
        c.set_n_step_max(60);
        let (u, l) = kind.start(n);
        let base = Job { u, l, dir: IniDir::Pos, stop: Stop::Steps(4), ddl: ddls[di].clone(), plan: Plan::default(), quiet: true };
        let total = {
            let mut s = match Solver::new(&c, system(kind, n, Sym::No, false)) {
                Ok(s) => s,
                Err(_) => return,
            };
            crate::sys::run(&mut s, n, &base).args.n_jac
        };
        for k in 0..total {
            for v in [f64::NAN, f64::INFINITY, 0.0, 1e300, -1.0] {
                for comp in 0..n + 1 {
                    for later in [false, true] {
                        let key = format!("{:?}{}/{:?}/steps{}/tol{}/call{}/{}/row{}/later={}", kind, n, me, di, t, k, v, comp, later);
                        ctx.case(&key, |tr| {
                            let a = if comp == n { Act::Value(v) } else { Act::Component(comp, v) };
                            let mut job = base.clone();
                            job.plan.jac = vec![(k, a, later)];
                            let mut s = Solver::new(&c, system(kind, n, Sym::No, false))?;
                            let d = run_job(&mut s, n, &job, tr);
                            // a wrong Jacobian may stop the iterations too early by the correction criterion
                            let strict = TOLS[t].only_residual || (v == 0.0 && me != Me::Full) || !v.is_finite();
                            if strict {
                                all_solved(kind, n, me, &TOLS[t], &job, &d)?;
                            } else if let Err(e) = &d.res {
                                fail!("{}", e);
                            }
                            for (u, l, _) in &d.points {
                                ensure!(u.iter().all(|x| x.is_finite()) && l.is_finite(), "accepted a point that is not finite: {:?} {}", u, l);
                            }
                            if v == 0.0 && me != Me::Full {
                                ensure!(!d.success(), "success with a singular Jacobian at call {}", k);
                            }
                            Ok(())
                        });
                    }
                }
            }
        }
    });
}

/// Initial states and increments that are not finite
fn spoiled_inputs(r: &mut Run) {
    r.section("inputs-not-finite", METHODS.len() * BRANCHES.len(), |ctx, it| {
        let me = METHODS[it % METHODS.len()];
        let (kind, n) = BRANCHES[it / METHODS.len()];
        for v in [f64::NAN, f64::INFINITY, f64::NEG_INFINITY] {
            for place in 0..n + 2 {
                for auto in [false, true] {
                    for con in 0..N_CONTROL {
                        if !auto && con > 0 {
                            continue;
                        }
                        ctx.case(&format!("{:?}{}/{:?}/{}/place{}/auto={}/control{}", kind, n, me, v, place, auto, con), |tr| {
                            let mut c = me.config();
                            set_control(&mut c, con);
                            c.set_n_step_max(20);
                            let (mut u, mut l) = kind.start(n);
                            let mut h = 0.1;
                            if place < n {
                                u[place] = v;
                            } else if place == n {
                                l = v;
                            } else {
                                h = v;
                            }
                            let ddl = if auto { Ddl::Auto(h) } else { Ddl::Constant(h) };
                            let job = Job { u, l, dir: IniDir::Pos, stop: Stop::Steps(3), ddl, plan: Plan::default(), quiet: true };
                            let mut s = Solver::new(&c, system(kind, n, Sym::No, false))?;
                            let d = run_job(&mut s, n, &job, tr);
                            if let Err(e) = &d.res {
                                fail!("{}", e);
                            }
                            for (u, l, _) in d.points.iter().skip(1) {
                                ensure!(u.iter().all(|x| x.is_finite()) && l.is_finite(), "accepted a point that is not finite: {:?} {}", u, l);
                            }
                            if d.success() {
                                ensure!(d.u.iter().all(|x| x.is_finite()) && d.l.is_finite(), "success with ({:?}, {})", d.u, d.l);
                            }
                            Ok(())
                        });
                    }
                }
            }
        }
    });
}

/// The Jacobian checker accepts the right Jacobian and refuses wrong ones, at the given point
fn jacobian_checker(r: &mut Run) {
    let values = [-1.5, -0.5, 0.0, 0.75, 1.25];
    r.section("jacobian-checker", BRANCHES.len(), |ctx, it| {
        let (kind, n) = BRANCHES[it];
        for l in values {
            for base in 0..values.len() {
                let u: Vec<f64> = (0..n).map(|i| values[(base + 2 * i) % values.len()]).collect();
                if kind == Kind::Piece && l == 1.0 {
                    continue;
                }
                ctx.case(&format!("{:?}{}/l={}/u={:?}/right", kind, n, l, u), |tr| {
                    tr.op();
                    tr.state_f64(&u);
                    let s = system(kind, n, Sym::No, false);
                    let mut a = Args::default();
                    match guarded(|| s.check_ggu(l, &Vector::from(&u), &mut a, 1e-5)) {
                        Ok(Ok(())) => Ok(()),
                        Ok(Err(e)) => fail!("the right Jacobian was refused: {}", e),
                        Err(e) => fail!("the right Jacobian was refused: {}", e),
                    }
                });
                for row in 0..n {
                    ctx.case(&format!("{:?}{}/l={}/u={:?}/wrong row {}", kind, n, l, u, row), |tr| {
                        tr.op();
                        let s = system(kind, n, Sym::No, false);
                        let mut a = Args::default();
                        let (m, _) = kind.jac(n, &u, l);
                        a.plan.jac = vec![(0, Act::Component(row, m[row][row] + 0.5), true)];
                        match guarded(|| s.check_ggu(l, &Vector::from(&u), &mut a, 1e-5)) {
                            Ok(Ok(())) => fail!("a wrong Jacobian was accepted"),
                            _ => Ok(()),
                        }
                    });
                }
            }
        }
    });
}
