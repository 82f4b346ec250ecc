// Systems with known solution branches, an instrumented set of callbacks and a driver.
use mc::guarded;
use russell_lab::{Norm, Vector};
use russell_nonlin::*;
use russell_sparse::Sym;

/// Systems G(u, λ) = 0
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    /// M (u - b λ) = 0
    Line,
    /// M u + u³ - c λ = 0 (symmetric, monotone)
    Chain,
    /// u = (cos λ, sin λ), coupled and unsymmetric
    Helix,
    /// u - λ exp(u), fold at u = 1
    Fold,
    /// u³ - 3 u - λ, two folds
    SCurve,
    /// u² + λ² = 2
    Circle,
    /// straight first, curved for λ > 1
    Piece,
    /// (u - 2 - λ) exp(u) with a residual that is not finite for λ > 1
    Wall,
    /// u² + 1 + λ²: no solution at all
    NoRoot,
    /// u³ - 2 u + 2 + 0 λ: the iterations cycle from u = 0
    Cycle,
    /// u² - λ from (0, 0): singular at the start
    Singular,
    /// u - λ, and (u_1 - λ)³
    Slow,
}

pub const BRANCHES: [(Kind, usize); 11] = [
    (Kind::Line, 1),
    (Kind::Line, 2),
    (Kind::Line, 4),
    (Kind::Chain, 1),
    (Kind::Chain, 2),
    (Kind::Chain, 5),
    (Kind::Helix, 2),
    (Kind::Fold, 1),
    (Kind::SCurve, 1),
    (Kind::Circle, 1),
    (Kind::Piece, 1),
];

impl Kind {
    pub fn start(&self, n: usize) -> (Vec<f64>, f64) {
        match self {
            Kind::Helix => (vec![1.0, 0.0], 0.0),
            Kind::SCurve => (vec![-2.0], -2.0),
            Kind::Circle => (vec![1.0], 1.0),
            Kind::Wall => (vec![2.0], 0.0),
            _ => (vec![0.0; n], 0.0),
        }
    }
    /// a coordinate that is strictly monotonic along the branch when starting with increasing λ
    pub fn param(&self, u: &[f64], l: f64) -> f64 {
        match self {
            Kind::Fold | Kind::SCurve => u[0],
            Kind::Circle => {
                let a = f64::atan2(l, u[0]);
                let q = std::f64::consts::PI / 4.0;
                // starts at 45 degrees; unwrapped within (-270, 90) x the direction
                a - q
            }
            _ => l,
        }
    }
    /// largest λ that the branch reaches without a turning point (natural method)
    pub fn natural_range(&self) -> (f64, f64) {
        match self {
            Kind::Fold => (-3.0, 0.3),
            Kind::SCurve => (-20.0, 1.5),
            Kind::Circle => (-1.3, 1.3),
            _ => (-3.0, 3.0),
        }
    }
    pub fn symmetric(&self) -> bool {
        !matches!(self, Kind::Helix | Kind::Slow)
    }
    pub fn g(&self, n: usize, u: &[f64], l: f64) -> Vec<f64> {
        let mut g = vec![0.0; n];
        let m = |i: usize, v: &dyn Fn(usize) -> f64| {
            let mut s = 2.0 * v(i);
            if i > 0 {
                s -= v(i - 1);
            }
            if i + 1 < n {
                s -= v(i + 1);
            }
            s
        };
        match self {
            Kind::Line => {
                for i in 0..n {
                    g[i] = m(i, &|j| u[j] - b(j) * l);
                }
            }
            Kind::Chain => {
                for i in 0..n {
                    g[i] = m(i, &|j| u[j]) + u[i] * u[i] * u[i] - (i + 1) as f64 * l;
                }
            }
            Kind::Helix => {
                g[0] = u[0] - l.cos() + 0.5 * (u[1] - l.sin());
                g[1] = u[1] - l.sin();
            }
            Kind::Fold => g[0] = u[0] - l * u[0].exp(),
            Kind::SCurve => g[0] = u[0] * u[0] * u[0] - 3.0 * u[0] - l,
            Kind::Circle => g[0] = u[0] * u[0] + l * l - 2.0,
            Kind::Piece => {
                let p = f64::max(0.0, l - 1.0);
                g[0] = u[0] - l - p * p;
            }
            Kind::Wall => g[0] = (u[0] - 2.0 - l) * (1.0 + 0.1 * u[0]) + (1.0 - l).sqrt() - (1.0 - l).sqrt(),
            Kind::NoRoot => g[0] = u[0] * u[0] + 1.0 + l * l,
            Kind::Cycle => g[0] = u[0] * u[0] * u[0] - 2.0 * u[0] + 2.0 + 0.0 * l,
            Kind::Singular => g[0] = u[0] * u[0] - l,
            Kind::Slow => {
                g[0] = u[0] - l;
                g[1] = f64::powi(u[1] - l, 3) + 0.0 * u[0];
            }
        }
        g
    }
    /// (dG/du row by row, dG/dλ)
    pub fn jac(&self, n: usize, u: &[f64], l: f64) -> (Vec<Vec<f64>>, Vec<f64>) {
        let mut a = vec![vec![0.0; n]; n];
        let mut gl = vec![0.0; n];
        match self {
            Kind::Line | Kind::Chain => {
                for i in 0..n {
                    a[i][i] = 2.0;
                    if i > 0 {
                        a[i][i - 1] = -1.0;
                    }
                    if i + 1 < n {
                        a[i][i + 1] = -1.0;
                    }
                }
                for i in 0..n {
                    if *self == Kind::Line {
                        gl[i] = -(0..n).map(|j| a[i][j] * b(j)).sum::<f64>();
                    } else {
                        gl[i] = -((i + 1) as f64);
                    }
                }
                if *self == Kind::Chain {
                    for i in 0..n {
                        a[i][i] += 3.0 * u[i] * u[i];
                    }
                }
            }
            Kind::Helix => {
                a[0][0] = 1.0;
                a[0][1] = 0.5;
                a[1][1] = 1.0;
                gl[0] = l.sin() - 0.5 * l.cos();
                gl[1] = -l.cos();
            }
            Kind::Fold => {
                a[0][0] = 1.0 - l * u[0].exp();
                gl[0] = -u[0].exp();
            }
            Kind::SCurve => {
                a[0][0] = 3.0 * u[0] * u[0] - 3.0;
                gl[0] = -1.0;
            }
            Kind::Circle => {
                a[0][0] = 2.0 * u[0];
                gl[0] = 2.0 * l;
            }
            Kind::Piece => {
                a[0][0] = 1.0;
                gl[0] = -1.0 - 2.0 * f64::max(0.0, l - 1.0);
            }
            Kind::Wall => {
                a[0][0] = 1.0 + 0.1 * u[0] + 0.1 * (u[0] - 2.0 - l);
                gl[0] = -(1.0 + 0.1 * u[0]);
            }
            Kind::NoRoot => {
                a[0][0] = 2.0 * u[0] + if u[0] == 0.0 { 1.0 } else { 0.0 };
                gl[0] = 2.0 * l;
            }
            Kind::Cycle => {
                a[0][0] = 3.0 * u[0] * u[0] - 2.0;
            }
            Kind::Singular => {
                a[0][0] = 2.0 * u[0];
                gl[0] = -1.0;
            }
            Kind::Slow => {
                a[0][0] = 1.0;
                a[1][1] = 3.0 * f64::powi(u[1] - l, 2);
                gl[0] = -1.0;
                gl[1] = -a[1][1];
            }
        }
        (a, gl)
    }
}

fn b(j: usize) -> f64 {
    let s = if j % 2 == 0 { 1.0 } else { -1.0 };
    s * (j + 1) as f64 / 2.0
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Backup,
    Restore,
    Prepare,
    Gg(f64, Vec<f64>),
    Jac(f64, Vec<f64>),
    /// do_backup, u0, u1, l0, l1
    Update(bool, Vec<f64>, Vec<f64>, f64, f64, Act),
    /// u, l, h
    Out(Vec<f64>, f64, f64),
}

/// What a callback does at a given call
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Act {
    Fine,
    Error,
    /// update: terminate; output: stop
    Stop,
    /// all values replaced
    Value(f64),
    /// one component replaced
    Component(usize, f64),
}

#[derive(Clone, Debug, Default)]
pub struct Plan {
    /// (call index, what, all later calls too)
    pub gg: Vec<(usize, Act, bool)>,
    pub jac: Vec<(usize, Act, bool)>,
    pub update: Vec<(usize, Act, bool)>,
    pub out: Vec<(usize, Act, bool)>,
    /// attempts (predictor updates) that fail
    pub attempts: Vec<usize>,
}

fn act(list: &[(usize, Act, bool)], n: usize) -> Act {
    for (i, a, later) in list {
        if *i == n || (*later && n > *i) {
            return *a;
        }
    }
    Act::Fine
}

#[derive(Clone, Debug, Default)]
pub struct Args {
    pub plan: Plan,
    pub ev: Vec<Ev>,
    pub n_gg: usize,
    pub n_jac: usize,
    pub n_update: usize,
    pub n_attempt: usize,
    pub n_out: usize,
    /// secondary state: follows u by increments
    pub z: Vec<f64>,
    pub z_step: Vec<f64>,
    pub z_saved: Vec<f64>,
    pub quiet: bool,
}

pub const FAIL: &str = "the callback failed";

/// Builds the system; hooks: registers the four secondary-state callbacks
pub fn system<'a>(kind: Kind, n: usize, sym: Sym, hooks: bool) -> System<'a, Args> {
    let mut s = System::new(
        n,
        None,
        sym,
        move |gg: &mut Vector, l, u: &Vector, a: &mut Args| {
            let k = a.n_gg;
            a.n_gg += 1;
            if !a.quiet {
                a.ev.push(Ev::Gg(l, u.as_data().clone()));
            }
            let g = kind.g(n, u.as_data(), l);
            for i in 0..n {
                gg[i] = g[i];
            }
            match act(&a.plan.gg, k) {
                Act::Error => return Err(FAIL),
                Act::Value(v) => gg.fill(v),
                Act::Component(i, v) => gg[i] = v,
                _ => (),
            }
            Ok(())
        },
        move |ggu, ggl, l, u, a: &mut Args| {
            let k = a.n_jac;
            a.n_jac += 1;
            if !a.quiet {
                a.ev.push(Ev::Jac(l, u.as_data().clone()));
            }
            let (m, gl) = kind.jac(n, u.as_data(), l);
            let what = act(&a.plan.jac, k);
            if what == Act::Error {
                return Err(FAIL);
            }
            for i in 0..n {
                for j in 0..n {
                    if m[i][j] != 0.0 || i == j {
                        let v = match what {
                            Act::Value(v) => v,
                            Act::Component(c, v) if c == i => v,
                            _ => m[i][j],
                        };
                        ggu.put(i, j, v)?;
                    }
                }
                ggl[i] = gl[i];
            }
            Ok(())
        },
    )
    .unwrap();
    if hooks {
        s.set_backup_secondary_state(|a: &mut Args| {
            a.ev.push(Ev::Backup);
            a.z_saved = a.z.clone();
        });
        s.set_restore_secondary_state(|a: &mut Args| {
            a.ev.push(Ev::Restore);
            a.z = a.z_saved.clone();
        });
        s.set_prepare_to_iterate(|a: &mut Args| {
            a.ev.push(Ev::Prepare);
        });
        s.set_update_secondary_state(|first, u0, u1, l0, l1, a: &mut Args| {
            let k = a.n_update;
            a.n_update += 1;
            let mut what = act(&a.plan.update, k);
            if first {
                if a.plan.attempts.contains(&a.n_attempt) {
                    what = Act::Error;
                }
                a.n_attempt += 1;
                a.z_step = a.z.clone();
            }
            a.ev.push(Ev::Update(first, u0.as_data().clone(), u1.as_data().clone(), l0, l1, what));
            for i in 0..u0.dim() {
                a.z[i] = a.z_step[i] + (u1[i] - u0[i]);
            }
            match what {
                Act::Error => Err(FAIL),
                Act::Stop => Ok(true),
                _ => Ok(false),
            }
        });
    }
    s
}

#[derive(Clone, Debug)]
pub enum Ddl {
    Auto(f64),
    Constant(f64),
    List(Vec<f64>),
}

impl Ddl {
    pub fn make(&self) -> DeltaLambda {
        match self {
            Ddl::Auto(v) => DeltaLambda::auto(*v),
            Ddl::Constant(v) => DeltaLambda::constant(*v),
            Ddl::List(v) => DeltaLambda::list(v),
        }
    }
    pub fn auto(&self) -> bool {
        matches!(self, Ddl::Auto(_))
    }
    pub fn first(&self) -> f64 {
        match self {
            Ddl::Auto(v) | Ddl::Constant(v) => *v,
            Ddl::List(v) => v[0],
        }
    }
}

#[derive(Clone, Debug)]
pub struct Job {
    pub u: Vec<f64>,
    pub l: f64,
    pub dir: IniDir,
    pub stop: Stop,
    pub ddl: Ddl,
    pub plan: Plan,
    pub quiet: bool,
}

#[derive(Clone, Debug)]
pub struct Done {
    /// status or error or panic
    pub res: Result<Result<Status, String>, String>,
    pub u: Vec<f64>,
    pub l: f64,
    /// every call of the output callback
    pub points: Vec<(Vec<f64>, f64, f64)>,
    /// recordings
    pub rec_u: Vec<Vec<f64>>,
    pub rec_l: Vec<f64>,
    pub rec_h: Vec<f64>,
    pub rec_norm: Vec<f64>,
    pub rec_duds: Vec<Vec<f64>>,
    pub rec_dlds: Vec<f64>,
    pub args: Args,
    pub debug: (Vec<f64>, Vec<f64>, Vec<f64>),
    pub counts: Counts,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Counts {
    pub function: usize,
    pub jacobian: usize,
    pub factor: usize,
    pub lin_sol: usize,
    pub steps: usize,
    pub accepted: usize,
    pub rejected: usize,
    pub iterations: usize,
    pub h_bits: u64,
}

impl Done {
    pub fn success(&self) -> bool {
        matches!(&self.res, Ok(Ok(Status::Success)))
    }
    pub fn status(&self) -> Option<Status> {
        match &self.res {
            Ok(Ok(s)) => Some(s.clone()),
            _ => None,
        }
    }
    pub fn text(&self) -> String {
        match &self.res {
            Ok(Ok(s)) => format!("{:?}", s),
            Ok(Err(e)) => format!("Err({})", e),
            Err(e) => format!("{}", e),
        }
    }
    /// everything that a user can observe, as bits
    pub fn bits(&self) -> Vec<u64> {
        let mut v = Vec::new();
        let mut add = |x: &[f64]| {
            v.push(x.len() as u64 + 1_000_000);
            for a in x {
                v.push(a.to_bits());
            }
        };
        add(&self.u);
        add(&[self.l]);
        for (u, l, h) in &self.points {
            add(u);
            add(&[*l, *h]);
        }
        for r in self.rec_u.iter().chain(self.rec_duds.iter()) {
            add(r);
        }
        add(&self.rec_l);
        add(&self.rec_h);
        add(&self.rec_norm);
        add(&self.rec_dlds);
        add(&self.debug.0);
        add(&self.debug.1);
        add(&self.debug.2);
        v
    }
}

/// Runs a job on a solver (fresh output object)
pub fn run(solver: &mut Solver<Args>, n: usize, job: &Job) -> Done {
    let mut out: Output<Args> = Output::new();
    out.set_callback(|_stats, u, l, h, a: &mut Args| {
        let k = a.n_out;
        a.n_out += 1;
        a.ev.push(Ev::Out(u.as_data().clone(), l, h));
        match act(&a.plan.out, k) {
            Act::Error => Err(FAIL),
            Act::Stop => Ok(true),
            _ => Ok(false),
        }
    });
    let all: Vec<usize> = (0..n).collect();
    out.set_record_norm_u(true, Norm::Euc, 0, n);
    out.set_recording(true, &all, &all);
    let mut u = Vector::from(&job.u);
    let mut l = job.l;
    let mut args = Args {
        plan: job.plan.clone(),
        quiet: job.quiet,
        z: job.u.clone(),
        z_step: vec![f64::NAN; n],
        z_saved: vec![f64::NAN; n],
        ..Args::default()
    };
    let ddl = job.ddl.make();
    let res = guarded(|| {
        solver
            .solve(&mut args, &mut u, &mut l, job.dir, job.stop, &ddl, Some(&mut out))
            .map_err(|e| e.to_string())
    });
    let s = solver.get_stats();
    let points = args
        .ev
        .iter()
        .filter_map(|e| match e {
            Ev::Out(u, l, h) => Some((u.clone(), *l, *h)),
            _ => None,
        })
        .collect();
    Done {
        res,
        u: u.as_data().clone(),
        l,
        points,
        rec_u: all.iter().map(|m| out.get_u_values(*m).clone()).collect(),
        rec_l: out.get_l_values().clone(),
        rec_h: out.get_h_values().clone(),
        rec_norm: out.get_norm_u_values().clone(),
        rec_duds: all.iter().map(|m| out.get_duds_values(*m).clone()).collect(),
        rec_dlds: out.get_dlds_values().clone(),
        counts: Counts {
            function: s.n_function,
            jacobian: s.n_jacobian,
            factor: s.n_factor,
            lin_sol: s.n_lin_sol,
            steps: s.n_steps,
            accepted: s.n_accepted,
            rejected: s.n_rejected,
            iterations: s.n_iteration_total,
            h_bits: s.h_accepted.to_bits(),
        },
        args,
        debug: solver.get_debug_predictor_values(),
    }
}

/// Solves a small dense system with row exchanges; None if singular
pub fn dense(a: &[Vec<f64>], b: &[f64]) -> Option<Vec<f64>> {
    let n = b.len();
    let mut a: Vec<Vec<f64>> = a.to_vec();
    let mut b = b.to_vec();
    for k in 0..n {
        let p = (k..n).max_by(|i, j| a[*i][k].abs().total_cmp(&a[*j][k].abs()))?;
        if !(a[p][k].abs() > 0.0) {
            return None;
        }
        a.swap(k, p);
        b.swap(k, p);
        for i in k + 1..n {
            let f = a[i][k] / a[k][k];
            for j in k..n {
                a[i][j] -= f * a[k][j];
            }
            b[i] -= f * b[k];
        }
    }
    for k in (0..n).rev() {
        for j in k + 1..n {
            b[k] -= a[k][j] * b[j];
        }
        b[k] /= a[k][k];
    }
    Some(b)
}

/// Tolerances of the iterations
#[derive(Clone, Copy, Debug)]
pub struct Tol {
    pub residual: f64,
    pub abs: f64,
    pub rel: f64,
    pub only_residual: bool,
}

/// Is (u, l) a solution to within the configured tolerances? The residual is small or the smallest
/// correction that removes it is small, measured as the solver documents (scaled by the previous point)
pub fn solved(
    kind: Kind,
    n: usize,
    natural: bool,
    tol: &Tol,
    prev: (&[f64], f64),
    u: &[f64],
    l: f64,
) -> Result<(), String> {
    if u.iter().any(|v| !v.is_finite()) || !l.is_finite() {
        return Err(format!("the point is not finite: u = {:?}, l = {}", u, l));
    }
    let g = kind.g(n, u, l);
    let r = g.iter().fold(0.0, |m: f64, v| if v.is_nan() { f64::NAN } else { m.max(v.abs()) });
    if r < tol.residual * (1.0 + 1e-9) {
        return Ok(());
    }
    if tol.only_residual || !r.is_finite() {
        return Err(format!("the residual is {:.3e} at u = {:?}, l = {}", r, u, l));
    }
    let (a, gl) = kind.jac(n, u, l);
    let s: Vec<f64> = (0..n).map(|i| tol.abs + tol.rel * f64::max(prev.0[i].abs(), u[i].abs())).collect();
    let sl = tol.abs + tol.rel * f64::max(prev.1.abs(), l.abs());
    let rms = if natural {
        match dense(&a, &g) {
            Some(d) => (0..n).map(|i| (d[i] / s[i]).powi(2)).sum::<f64>() / n as f64,
            None => f64::INFINITY,
        }
    } else {
        // smallest scaled correction: y = Bᵀ (B Bᵀ)⁻¹ g with B = [Gu Gl] diag(s)
        let mut bb = vec![vec![0.0; n + 1]; n];
        for i in 0..n {
            for j in 0..n {
                bb[i][j] = a[i][j] * s[j];
            }
            bb[i][n] = gl[i] * sl;
        }
        let mut m = vec![vec![0.0; n]; n];
        for i in 0..n {
            for j in 0..n {
                m[i][j] = (0..n + 1).map(|k| bb[i][k] * bb[j][k]).sum();
            }
        }
        match dense(&m, &g) {
            Some(w) => {
                (0..n + 1).map(|k| (0..n).map(|i| bb[i][k] * w[i]).sum::<f64>().powi(2)).sum::<f64>() / (n + 1) as f64
            }
            None => f64::INFINITY,
        }
    };
    if rms.sqrt() <= 1.0 + 1e-3 {
        Ok(())
    } else {
        Err(format!(
            "the residual is {:.3e} and the scaled correction {:.3e} at u = {:?}, l = {}",
            r,
            rms.sqrt(),
            u,
            l
        ))
    }
}
