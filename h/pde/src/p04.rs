//! P04: spectral collocation

use crate::geo::*;
use crate::p03::{Kind, SIDES};
use mc::*;
use russell_lab::Vector;
use russell_pde::*;
use russell_sparse::{CooMatrix, Genie};
use std::f64::consts::PI;
use std::sync::Arc;

/// Chebyshev-Gauss-Lobatto node
fn node(i: usize, n: usize) -> f64 {
    -(PI * i as f64 / (n - 1) as f64).cos()
}

/// Values at one node of a field given by its derivatives with respect to the reference coordinates
struct Geometry {
    x: [f64; 2],
    xr: [f64; 2],
    xs: [f64; 2],
    xrr: [f64; 2],
    xss: [f64; 2],
    xrs: [f64; 2],
}

impl Geometry {
    fn new(pair: &Pair, r: f64, s: f64) -> Self {
        let d = &pair.d;
        Geometry { x: d(0, 0, r, s), xr: d(1, 0, r, s), xs: d(0, 1, r, s), xrr: d(2, 0, r, s), xss: d(0, 2, r, s), xrs: d(1, 1, r, s) }
    }

    fn det(&self) -> f64 {
        self.xr[0] * self.xs[1] - self.xr[1] * self.xs[0]
    }

    /// Gradient from the chain rule
    fn gradient(&self, fr: f64, fs: f64) -> [f64; 2] {
        let det = self.det();
        [(self.xs[1] * fr - self.xr[1] * fs) / det, (self.xr[0] * fs - self.xs[0] * fr) / det]
    }

    /// Second derivatives xx and yy from the chain rule applied twice
    fn second(&self, fr: f64, fs: f64, frr: f64, fss: f64, frs: f64) -> [f64; 2] {
        let g = self.gradient(fr, fs);
        // tensor of second derivatives in reference coordinates without the curvature of the map
        let h = |f: f64, c: &[f64; 2]| f - c[0] * g[0] - c[1] * g[1];
        let (a, b, c) = (h(frr, &self.xrr), h(frs, &self.xrs), h(fss, &self.xss));
        // H = J^-T [a b; b c] J^-1
        let row0 = self.gradient(a, b); // derivatives of f_r along x and y
        let row1 = self.gradient(b, c);
        [self.gradient(row0[0], row1[0])[0], self.gradient(row0[1], row1[1])[1]]
    }

    /// Outward normal of a side
    fn normal(&self, side: usize) -> [f64; 2] {
        let g = if side < 2 { self.gradient(1.0, 0.0) } else { self.gradient(0.0, 1.0) };
        let l = (g[0] * g[0] + g[1] * g[1]).sqrt();
        let sign = if side % 2 == 0 { -1.0 } else { 1.0 };
        [sign * g[0] / l, sign * g[1] / l]
    }
}

/// Problem: geometry of all nodes
struct Problem {
    nr: usize,
    ns: usize,
    geo: Vec<Geometry>,
    k: [f64; 2],
    size: f64,
}

#[derive(Clone, Copy)]
struct Field {
    p: usize,
    q: usize,
}

impl Problem {
    fn new(pair: &Pair, nr: usize, ns: usize, k: [f64; 2]) -> Self {
        let geo: Vec<_> = (0..nr * ns).map(|m| Geometry::new(pair, node(m % nr, nr), node(m / nr, ns))).collect();
        let size = geo.iter().fold(0.0, |a: f64, g| a.max(g.x[0].abs()).max(g.x[1].abs()));
        Problem { nr, ns, geo, k, size }
    }

    fn rs(&self, m: usize) -> (f64, f64) {
        (node(m % self.nr, self.nr), node(m / self.nr, self.ns))
    }

    fn value(&self, f: Field, m: usize) -> f64 {
        let (r, s) = self.rs(m);
        dpow(f.p, 0, r) * dpow(f.q, 0, s)
    }

    fn flow(&self, f: Field, m: usize) -> [f64; 2] {
        let (r, s) = self.rs(m);
        let g = self.geo[m].gradient(dpow(f.p, 1, r) * dpow(f.q, 0, s), dpow(f.p, 0, r) * dpow(f.q, 1, s));
        [-self.k[0] * g[0], -self.k[1] * g[1]]
    }

    fn flux(&self, f: Field, m: usize, side: usize) -> f64 {
        let (w, n) = (self.flow(f, m), self.geo[m].normal(side));
        w[0] * n[0] + w[1] * n[1]
    }

    fn source(&self, f: Field, m: usize, alpha: f64) -> f64 {
        let (r, s) = self.rs(m);
        let d = |a: usize, b: usize| dpow(f.p, a, r) * dpow(f.q, b, s);
        let h = self.geo[m].second(d(1, 0), d(0, 1), d(2, 0), d(0, 2), d(1, 1));
        -self.k[0] * h[0] - self.k[1] * h[1] + alpha * d(0, 0)
    }

    fn sides(&self, m: usize) -> Vec<usize> {
        let (i, j) = (m % self.nr, m / self.nr);
        [i == 0, i == self.nr - 1, j == 0, j == self.ns - 1].iter().enumerate().filter(|(_, b)| **b).map(|(k, _)| k).collect()
    }

    /// Ratio of the smallest to the largest pivot of the collocation equations
    fn regularity(&self, kinds: &[Kind; 4], alpha: f64) -> f64 {
        let neq = self.nr * self.ns;
        let mut a = vec![vec![0.0; neq]; neq];
        for m in 0..neq {
            let sides = self.sides(m);
            let fixed = sides.iter().any(|s| kinds[*s] == Kind::Value);
            for n in 0..neq {
                let f = Field { p: n % self.nr, q: n / self.nr };
                a[m][n] = if fixed {
                    self.value(f, m)
                } else if sides.is_empty() {
                    self.source(f, m, alpha)
                } else {
                    sides.iter().map(|s| self.flux(f, m, *s)).sum()
                };
            }
            let big = a[m].iter().fold(0.0, |x: f64, y| x.max(y.abs()));
            if big == 0.0 {
                return 0.0;
            }
            a[m].iter_mut().for_each(|x| *x /= big);
        }
        let (mut lo, mut hi) = (f64::MAX, 0.0_f64);
        for step in 0..neq {
            let mut best = (step, step);
            for i in step..neq {
                for j in step..neq {
                    if a[i][j].abs() > a[best.0][best.1].abs() {
                        best = (i, j);
                    }
                }
            }
            a.swap(step, best.0);
            for row in a.iter_mut() {
                row.swap(step, best.1);
            }
            let pivot = a[step][step];
            lo = lo.min(pivot.abs());
            hi = hi.max(pivot.abs());
            if pivot == 0.0 {
                return 0.0;
            }
            for i in step + 1..neq {
                let c = a[i][step] / pivot;
                for j in step..neq {
                    let v = a[step][j];
                    a[i][j] -= c * v;
                }
            }
        }
        lo / hi
    }

    /// Function of the position known at the nodes only; elsewhere not a number
    fn table(&self, values: Vec<f64>) -> Arc<dyn Fn(f64, f64) -> f64 + Send + Sync> {
        let x: Vec<[f64; 2]> = self.geo.iter().map(|g| g.x).collect();
        let tol = 1e-12 * self.size;
        Arc::new(move |a, b| match x.iter().position(|p| (p[0] - a).abs() <= tol && (p[1] - b).abs() <= tol) {
            Some(m) => values[m],
            None => f64::NAN,
        })
    }
}

/// The solvers of the repository with the same calls
enum Solver<'a> {
    Plain(Spc2d<'a>),
    Mapped(SpcMap2d<'a>),
}

impl<'a> Solver<'a> {
    fn sps(&mut self, alpha: f64, f: &dyn Fn(f64, f64) -> f64) -> Result<Vector, String> {
        Ok(match self {
            Solver::Plain(s) => s.solve_sps(alpha, f)?,
            Solver::Mapped(s) => s.solve_sps(alpha, f)?,
        })
    }
    fn lmm(&mut self, alpha: f64, f: &dyn Fn(f64, f64) -> f64) -> Result<Vector, String> {
        Ok(match self {
            Solver::Plain(s) => s.solve_lmm(alpha, f)?,
            Solver::Mapped(s) => s.solve_lmm(alpha, f)?,
        })
    }
    fn flow(&mut self, a: &Vector) -> Result<(Vec<f64>, Vec<f64>), String> {
        Ok(match self {
            Solver::Plain(s) => s.calculate_flow_vectors(a)?,
            Solver::Mapped(s) => s.calculate_flow_vectors(a)?,
        })
    }
    fn coords(&mut self) -> Vec<[f64; 2]> {
        let mut all = vec![];
        let mut put = |m: usize, x: f64, y: f64| {
            if all.len() <= m {
                all.resize(m + 1, [f64::NAN; 2]);
            }
            all[m] = [x, y];
        };
        match self {
            Solver::Plain(s) => s.for_each_coord(&mut put),
            Solver::Mapped(s) => s.for_each_coord(&mut put),
        }
        all
    }
    fn equations(&self) -> &EquationHandler {
        match self {
            Solver::Plain(s) => s.get_equations(),
            Solver::Mapped(s) => s.get_equations(),
        }
    }
    fn matrices_sps(&mut self, alpha: f64, extra: usize) -> (CooMatrix, CooMatrix) {
        match self {
            Solver::Plain(s) => s.get_matrices_sps(alpha, extra),
            Solver::Mapped(s) => s.get_matrices_sps(alpha, extra),
        }
    }
    fn matrices_lmm(&mut self, alpha: f64, extra: usize, cc: bool) -> (CooMatrix, Option<CooMatrix>) {
        match self {
            Solver::Plain(s) => s.get_matrices_lmm(alpha, extra, cc),
            Solver::Mapped(s) => s.get_matrices_lmm(alpha, extra, cc),
        }
    }
    fn options(&mut self) {
        match self {
            Solver::Plain(s) => s.set_solver_options(Genie::Umfpack),
            Solver::Mapped(s) => s.set_solver_options(Genie::Umfpack),
        }
    }
    fn dims(&self) -> ((usize, usize), (usize, usize, usize)) {
        match self {
            Solver::Plain(s) => (s.get_dims_sps(), s.get_dims_lmm()),
            Solver::Mapped(s) => (s.get_dims_sps(), s.get_dims_lmm()),
        }
    }
}

fn setup<'a>(problem: &Problem, pair: &Pair, domain: Option<[f64; 4]>, kinds: &[Kind; 4], f: Field, jump: f64) -> Result<Solver<'a>, String> {
    let mut ebcs = EssentialBcs2d::new();
    let mut nbcs = NaturalBcs2d::new();
    let neq = problem.geo.len();
    for s in 0..4 {
        match kinds[s] {
            Kind::Value => {
                let table = problem.table((0..neq).map(|m| problem.value(f, m) + jump * (s + 1) as f64).collect());
                ebcs.set(SIDES[s], move |x, y| table(x, y));
            }
            _ => {
                let table = problem.table((0..neq).map(|m| problem.flux(f, m, s) + jump * (s + 1) as f64).collect());
                nbcs.set(SIDES[s], move |x, y| table(x, y));
            }
        }
    }
    let (nr, ns, k) = (problem.nr, problem.ns, problem.k);
    Ok(match domain {
        Some(d) => Solver::Plain(Spc2d::new(d[0], d[1], d[2], d[3], nr, ns, ebcs, nbcs, k[0], k[1])?),
        None => Solver::Mapped(SpcMap2d::new((pair.make)(), nr, ns, ebcs, nbcs, k[0])?),
    })
}

fn agrees(what: &str, got: &[f64], want: &[f64], tol: f64) -> Outcome {
    ensure!(got.len() == want.len(), "{what}: {} values instead of {}", got.len(), want.len());
    for m in 0..want.len() {
        ensure!((got[m] - want[m]).abs() <= tol, "{what} at node {m} is {} instead of {}", got[m], want[m]);
    }
    Ok(())
}

/// Assembled matrices of the two strategies: same operator, constraints, free space
fn blocks(t: &mut Trace, solver: &mut Solver, alpha: f64) -> Outcome {
    let (neq, nu, np) = { let e = solver.equations(); (e.neq(), e.nu(), e.np()) };
    ensure!(solver.dims() == ((nu, np), (neq, np, neq + np)), "dimensions {:?}", solver.dims());
    let (unknown, prescribed) = { let e = solver.equations(); (e.unknown().clone(), e.prescribed().clone()) };
    for extra in [0, 3] {
        t.op();
        let (mut mm, cc) = solver.matrices_lmm(alpha, extra, true);
        ensure!(cc.is_some() == (np > 0), "constraint matrix");
        let d = mm.as_dense();
        ensure!(d.dims() == (neq + np, neq + np), "augmented matrix is {:?}", d.dims());
        for q in 0..np {
            for n in 0..neq + np {
                let want = if n == prescribed[q] { 1.0 } else { 0.0 };
                ensure!(d.get(neq + q, n) == want && d.get(n, neq + q) == want, "constraint {q}");
                if n < neq {
                    ensure!(cc.as_ref().unwrap().as_dense().get(q, n) == want, "constraint matrix ({q},{n})");
                }
            }
        }
        for _ in 0..extra {
            mm.put(0, 0, 1.0)?;
        }
        // without unknowns there is no partitioned system
        if nu > 0 {
            let (mut kk, kc) = solver.matrices_sps(alpha, extra);
            let (a, b) = (kk.as_dense(), kc.as_dense());
            ensure!(a.dims() == (nu, nu) && (np == 0 || b.dims() == (nu, np)), "partitioned matrices");
            for i in 0..nu {
                for (j, n) in unknown.iter().enumerate() {
                    ensure!((a.get(i, j) - d.get(unknown[i], *n)).abs() <= 1e-13 * d.get(unknown[i], *n).abs(), "partitioned matrix ({i},{j})");
                }
                for (j, n) in prescribed.iter().enumerate() {
                    ensure!((b.get(i, j) - d.get(unknown[i], *n)).abs() <= 1e-13 * d.get(unknown[i], *n).abs(), "coupling matrix ({i},{j})");
                }
            }
            for _ in 0..extra {
                kk.put(0, 0, 1.0)?;
            }
        }
    }
    Ok(())
}

#[allow(clippy::too_many_arguments)]
fn two_dim(ctx: &mut Ctx, pair: &Pair, domain: Option<[f64; 4]>, k: [f64; 2], nr: usize, ns: usize, kind: usize, width: f64) {
    let kinds: [Kind; 4] = [0, 1, 2, 3].map(|s| if kind >> s & 1 == 0 { Kind::Value } else { Kind::Flux });
    let problem = Problem::new(pair, nr, ns, k);
    let kmax = k[0].max(k[1]);
    let letters: String = kinds.iter().map(|k| if *k == Kind::Value { 'v' } else { 'f' }).collect();
    for (ia, factor) in [0.0, 3.0, -0.5].into_iter().enumerate() {
        let alpha = factor * kmax / (width * width);
        let ratio = problem.regularity(&kinds, alpha);
        let key = format!("spc2d/{}/{nr}x{ns}/{letters}/a{ia}", pair.name);
        ctx.case(&format!("{key}/matrices"), |t| {
            t.state_f64(&[ratio, alpha, nr as f64, ns as f64]);
            let mut solver = setup(&problem, pair, domain, &kinds, Field { p: 0, q: 0 }, 0.0)?;
            let x = solver.coords();
            ensure!(x.len() == nr * ns, "{} nodes", x.len());
            for m in 0..nr * ns {
                let want = problem.geo[m].x;
                ensure!((x[m][0] - want[0]).abs() <= 1e-13 * problem.size && (x[m][1] - want[1]).abs() <= 1e-13 * problem.size, "node {m} at {:?} instead of {want:?}", x[m]);
            }
            ensure!(solver.flow(&Vector::new(nr * ns + 1)).is_err(), "flow of a vector of the wrong length");
            blocks(t, &mut solver, alpha)
        });
        // conditions that do not match at the corners: still one answer, with the prescribed values
        for p in 0..3.min(nr) {
            ctx.case(&format!("{key}/jump{p}"), |t| {
                t.ops(2 * nr * ns);
                let f = Field { p, q: 1 };
                let neq = nr * ns;
                let mut solver = setup(&problem, pair, domain, &kinds, f, kmax / width)?;
                let source = problem.table((0..neq).map(|m| problem.source(f, m, alpha)).collect());
                let (a, b) = (solver.sps(alpha, &*source), solver.lmm(alpha, &*source));
                if ratio < 1e-7 {
                    t.trivial();
                    return Ok(());
                }
                let (a, b) = (a?, b?);
                t.state_f64(a.as_data());
                let big = a.as_data().iter().fold(1.0, |x: f64, v| x.max(v.abs()));
                agrees("solution (multipliers against partitioned)", b.as_data(), a.as_data(), 1e-12 / ratio * big)?;
                for m in 0..neq {
                    let on: Vec<usize> = problem.sides(m).into_iter().filter(|s| kinds[*s] == Kind::Value).collect();
                    ensure!(on.is_empty() != solver.equations().is_prescribed(m), "node {m} is on {on:?} but prescribed is {}", !on.is_empty());
                    if !on.is_empty() {
                        let near = |s: &usize| (a[m] - problem.value(f, m) - kmax / width * (s + 1) as f64).abs() <= 1e-12 * big;
                        ensure!(on.iter().any(near), "node {m} has the value {}", a[m]);
                    }
                }
                Ok(())
            });
        }
        for p in 0..nr {
            for q in 0..ns {
                ctx.case(&format!("{key}/r{p}s{q}"), |t| {
                    t.ops(nr * ns);
                    let f = Field { p, q };
                    let neq = nr * ns;
                    let mut solver = setup(&problem, pair, domain, &kinds, f, 0.0)?;
                    if (p + q) % 2 == 1 {
                        solver.options();
                    }
                    let source = problem.table((0..neq).map(|m| problem.source(f, m, alpha)).collect());
                    let want: Vec<f64> = (0..neq).map(|m| problem.value(f, m)).collect();
                    t.state_f64(&want);
                    let (a, b) = (solver.sps(alpha, &*source), solver.lmm(alpha, &*source));
                    // flows of the field itself do not depend on the conditions
                    let (wx, wy) = solver.flow(&Vector::from(&want))?;
                    let flows: Vec<[f64; 2]> = (0..neq).map(|m| problem.flow(f, m)).collect();
                    let n4 = (nr.max(ns) as f64).powi(2);
                    let big = (0..neq).fold(0.0, |x: f64, m| x.max((problem.k[0] * problem.geo[m].gradient(1.0, 0.0)[0]).abs()).max((problem.k[1] * problem.geo[m].gradient(0.0, 1.0)[1]).abs()).max((problem.k[0] * problem.geo[m].gradient(0.0, 1.0)[0]).abs()).max((problem.k[1] * problem.geo[m].gradient(1.0, 0.0)[1]).abs()));
                    agrees("flow along x", &wx, &flows.iter().map(|w| w[0]).collect::<Vec<_>>(), 1e-13 * n4 * big)?;
                    agrees("flow along y", &wy, &flows.iter().map(|w| w[1]).collect::<Vec<_>>(), 1e-13 * n4 * big)?;
                    if ratio < 1e-7 {
                        t.trivial();
                        return Ok(());
                    }
                    let tol = 1e-12 / ratio;
                    agrees("solution (partitioned)", a?.as_data(), &want, tol)?;
                    agrees("solution (multipliers)", b?.as_data(), &want, tol)
                });
            }
        }
    }
}

/// Rectangles given by their limits
fn rectangles() -> Vec<([f64; 4], [f64; 2])> {
    vec![
        ([-1.0, 1.0, -1.0, 1.0], [1.0, 1.0]),
        ([0.0, 1.0, 0.0, 1.0], [1.0, 3.0]),
        ([-1.0, 2.0, 2.0, 3.5], [0.5, 2.0]),
        ([1e-4, 2.1e-3, -1e-3, 2e-3], [40.0, 70.0]),
        ([-1e4, 2e4, 0.0, 1e4], [2e-3, 1e-3]),
    ]
}

fn one_dim(run: &mut Run) {
    let nmax = run.pick(16, 40);
    let mut sizes: Vec<usize> = (2..=nmax).collect();
    sizes.extend([21, 24, 33, 41]);
    run.section("one_dimension", sizes.len() * 4, |ctx, item| {
        let (nx, kind) = (sizes[item / 4], item % 4);
        let kinds = [0, 1].map(|s| if kind >> s & 1 == 0 { Kind::Value } else { Kind::Flux });
        for (id, (d, k)) in rectangles().into_iter().enumerate() {
            let (lo, hi, k) = (d[0], d[1], k[0]);
            let half = 0.5 * (hi - lo);
            for (ia, factor) in [0.0, 3.0, -0.5].into_iter().enumerate() {
                let alpha = factor * k / (half * half);
                // the only equations are those of the ends
                let posed = kind != 3 || (factor != 0.0 && nx > 2);
                for p in 0..nx.min(12) {
                    ctx.case(&format!("spc1d/{nx}/{kind}/d{id}/a{ia}/p{p}"), |t| {
                        t.ops(nx);
                        let d = move |n: usize, x: f64| dpow(p, n, (x - lo) / half - 1.0) / half.powi(n as i32);
                        let mut ebcs = EssentialBcs1d::new();
                        let mut nbcs = NaturalBcs1d::new();
                        for s in 0..2 {
                            let sign = if s == 0 { -1.0 } else { 1.0 };
                            match kinds[s] {
                                Kind::Value => ebcs.set(SIDES[s], move |x| d(0, x)),
                                _ => nbcs.set(SIDES[s], move |x| -k * d(1, x) * sign),
                            }
                        }
                        let spc = Spc1d::new(lo, hi, nx, ebcs, nbcs, k)?;
                        let mut x = vec![f64::NAN; nx];
                        spc.for_each_coord(|m, v| x[m] = v);
                        for m in 0..nx {
                            let want = lo + half * (1.0 + node(m, nx));
                            ensure!((x[m] - want).abs() <= 1e-13 * lo.abs().max(hi.abs()), "node {m} at {} instead of {want}", x[m]);
                        }
                        let want: Vec<f64> = x.iter().map(|x| d(0, *x)).collect();
                        t.state_f64(&want);
                        let flow: Vec<f64> = x.iter().map(|x| -k * d(1, *x)).collect();
                        let n = nx as f64;
                        agrees("flow", &spc.calculate_flow_vectors(&Vector::from(&want))?, &flow, 1e-13 * n * n * n * k / half)?;
                        ensure!(spc.calculate_flow_vectors(&Vector::new(nx + 1)).is_err(), "flow of a vector of the wrong length");
                        let source = |x: f64| -k * d(2, x) + alpha * d(0, x);
                        let (a, b) = (spc.solve_sps(alpha, source), spc.solve_lmm(alpha, source));
                        if posed {
                            let tol = 1e-12 * n * n * n;
                            agrees("solution (partitioned)", a?.as_data(), &want, tol)?;
                            agrees("solution (multipliers)", b?.as_data(), &want, tol)?;
                        }
                        Ok(())
                    });
                }
                ctx.case(&format!("spc1d/{nx}/{kind}/d{id}/a{ia}/matrices"), |t| {
                    t.op();
                    let mut ebcs = EssentialBcs1d::new();
                    let mut nbcs = NaturalBcs1d::new();
                    for s in 0..2 {
                        match kinds[s] {
                            Kind::Value => ebcs.set(SIDES[s], |_| 0.0),
                            _ => nbcs.set(SIDES[s], |_| 0.0),
                        }
                    }
                    let spc = Spc1d::new(lo, hi, nx, ebcs, nbcs, k)?;
                    let eq = spc.get_equations();
                    let (nu, np) = (eq.nu(), eq.np());
                    ensure!(spc.get_dims_sps() == (nu, np) && spc.get_dims_lmm() == (nx, np, nx + np), "dimensions");
                    let (mut mm, cc) = spc.get_matrices_lmm(alpha, 2, true);
                    ensure!(cc.is_some() == (np > 0), "constraint matrix");
                    let d = mm.as_dense();
                    if nu > 0 {
                        let (mut kk, kc) = spc.get_matrices_sps(alpha, 2);
                        let (a, b) = (kk.as_dense(), kc.as_dense());
                        kk.put(0, 0, 1.0)?;
                        kk.put(nu - 1, nu - 1, 1.0)?;
                        for i in 0..nu {
                            for j in 0..nx {
                                let got = if eq.is_prescribed(j) { b.get(i, eq.ip(j)) } else { a.get(i, eq.iu(j)) };
                                let want = d.get(eq.unknown()[i], j);
                                ensure!((got - want).abs() <= 1e-13 * want.abs(), "operator ({i},{j})");
                            }
                        }
                    }
                    for q in 0..np {
                        for n in 0..nx + np {
                            let want = if n == eq.prescribed()[q] { 1.0 } else { 0.0 };
                            ensure!(d.get(nx + q, n) == want && d.get(n, nx + q) == want, "constraint {q}");
                        }
                    }
                    mm.put(0, 0, 1.0)?;
                    mm.put(nx - 1, nx - 1, 1.0)?;
                    Ok(())
                });
            }
        }
    });
}

fn refused(run: &mut Run) {
    run.section("refused", 1, |ctx, _| {
        let ends = [f64::NAN, f64::NEG_INFINITY, -1.0, 0.0, 1.0, f64::INFINITY];
        for nx in [0, 1, 2, 4] {
            for (i, a) in ends.into_iter().enumerate() {
                for (j, b) in ends.into_iter().enumerate() {
                    let good = nx >= 2 && a.is_finite() && b.is_finite() && b > a;
                    ctx.case(&format!("refused/1d/{nx}/{i}/{j}"), |t| {
                        t.op();
                        let mut ebcs = EssentialBcs1d::new();
                        ebcs.set(Side::Xmin, |_| 0.0);
                        ebcs.set(Side::Xmax, |_| 0.0);
                        let res = Spc1d::new(a, b, nx, ebcs, NaturalBcs1d::new(), 1.0);
                        ensure!(res.is_ok() == good, "domain [{a},{b}] with {nx} nodes is {}", if good { "refused" } else { "accepted" });
                        Ok(())
                    });
                    for axis in 0..2 {
                        ctx.case(&format!("refused/2d/{nx}/{i}/{j}/{axis}"), |t| {
                            t.op();
                            let mut ebcs = EssentialBcs2d::new();
                            for s in SIDES {
                                ebcs.set(s, |_, _| 0.0);
                            }
                            let res = if axis == 0 {
                                Spc2d::new(a, b, 0.0, 1.0, nx, 3, ebcs, NaturalBcs2d::new(), 1.0, 1.0)
                            } else {
                                Spc2d::new(0.0, 1.0, a, b, 3, nx, ebcs, NaturalBcs2d::new(), 1.0, 1.0)
                            };
                            ensure!(res.is_ok() == good, "domain [{a},{b}] with {nx} nodes along axis {axis} is {}", if good { "refused" } else { "accepted" });
                            Ok(())
                        });
                    }
                }
            }
        }
        // numbers of nodes on maps, degrees beyond the largest one, vectors of other lengths
        let values = || {
            let mut ebcs = EssentialBcs2d::new();
            for s in SIDES {
                ebcs.set(s, |_, _| 0.0);
            }
            ebcs
        };
        for (nr, ns) in (0..25).map(|k| ([0, 1, 2, 3, 2050][k % 5], [0, 1, 2, 3, 2050][k / 5])) {
            ctx.case(&format!("refused/nodes/{nr}/{ns}"), |t| {
                t.op();
                let good = nr >= 2 && ns >= 2 && nr <= 2049 && ns <= 2049;
                let map = TransfiniteSamples::quarter_ring_2d(1.0, 2.0);
                match SpcMap2d::new(map, nr, ns, values(), NaturalBcs2d::new(), 1.0) {
                    Ok(_) if !good => fail!("map with {nr} x {ns} nodes accepted"),
                    Err(e) if good => fail!("map with {nr} x {ns} nodes refused: {e}"),
                    Ok(mut spc) => {
                        for n in [0, nr * ns - 1, nr * ns + 1] {
                            ensure!(spc.calculate_flow_vectors(&Vector::new(n)).is_err(), "flow on a map of a vector of length {n}");
                        }
                    }
                    Err(_) => (),
                }
                match Spc2d::new(0.0, 1.0, 0.0, 1.0, nr, ns, values(), NaturalBcs2d::new(), 1.0, 1.0) {
                    Ok(_) if !good => fail!("rectangle with {nr} x {ns} nodes accepted"),
                    Err(e) if good => fail!("rectangle with {nr} x {ns} nodes refused: {e}"),
                    Ok(spc) => {
                        for n in [0, nr * ns - 1, nr * ns + 1] {
                            ensure!(spc.calculate_flow_vectors(&Vector::new(n)).is_err(), "flow of a vector of length {n}");
                        }
                    }
                    Err(_) => (),
                }
                let mut ebcs = EssentialBcs1d::new();
                ebcs.set(Side::Xmin, |_| 0.0);
                ebcs.set(Side::Xmax, |_| 0.0);
                ensure!(Spc1d::new(0.0, 1.0, nr, ebcs, NaturalBcs1d::new(), 1.0).is_ok() == (nr >= 2 && nr <= 2049), "interval with {nr} nodes");
                Ok(())
            });
        }
        for mask in 0..16 {
            // sides without any condition, and periodic conditions
            ctx.case(&format!("refused/open/{mask}"), |t| {
                t.op();
                let conditions = || {
                    let mut ebcs = EssentialBcs2d::new();
                    for s in 0..4 {
                        if mask >> s & 1 == 1 {
                            ebcs.set(SIDES[s], |_, _| 0.0);
                        }
                    }
                    ebcs
                };
                let spc = Spc2d::new(0.0, 1.0, 0.0, 1.0, 3, 3, conditions(), NaturalBcs2d::new(), 1.0, 1.0)?;
                ensure!(spc.solve_sps(0.0, |_, _| 0.0).is_ok() == (mask == 15), "sides {mask:b}");
                ensure!(spc.solve_lmm(0.0, |_, _| 0.0).is_ok() == (mask == 15), "sides {mask:b}");
                let mut spc = SpcMap2d::new(TransfiniteSamples::quarter_ring_2d(1.0, 2.0), 3, 3, conditions(), NaturalBcs2d::new(), 1.0)?;
                ensure!(spc.solve_sps(0.0, |_, _| 0.0).is_ok() == (mask == 15), "mapped, sides {mask:b}");
                ensure!(spc.solve_lmm(0.0, |_, _| 0.0).is_ok() == (mask == 15), "mapped, sides {mask:b}");
                Ok(())
            });
        }
        for axis in 0..3 {
            ctx.case(&format!("refused/periodic/{axis}"), |t| {
                t.op();
                let conditions = || {
                    let mut ebcs = EssentialBcs2d::new();
                    ebcs.set_periodic(axis != 1, axis != 0);
                    ebcs
                };
                ensure!(Spc2d::new(0.0, 1.0, 0.0, 1.0, 3, 3, conditions(), NaturalBcs2d::new(), 1.0, 1.0).is_err(), "periodic conditions accepted");
                ensure!(SpcMap2d::new(TransfiniteSamples::quarter_ring_2d(1.0, 2.0), 3, 3, conditions(), NaturalBcs2d::new(), 1.0).is_err(), "periodic conditions accepted on a map");
                let mut ebcs = EssentialBcs1d::new();
                ebcs.set_periodic(true);
                ensure!(Spc1d::new(0.0, 1.0, 3, ebcs, NaturalBcs1d::new(), 1.0).is_err(), "periodic conditions accepted in one dimension");
                Ok(())
            });
        }
    });
}

pub fn explore(run: &mut Run) {
    run.level("exploration", "for every domain or map, size, arrangement of conditions and reaction coefficient the solution of every problem whose field is a monomial of the full polynomial space equals that field at all nodes, with both strategies, together with its flow vectors and node positions");
    run.assume("reaction coefficients 0, positive and negative below the first eigenvalue; singular arrangements (found with an independent matrix) only have to return");
    one_dim(run);
    let top = run.pick(5, 8);
    let sizes = top - 1;
    let rects = rectangles();
    run.section("rectangles", rects.len() * sizes * sizes * 16, |ctx, item| {
        let ([a, b, c, d], k) = rects[item % rects.len()];
        let rest = item / rects.len();
        let (nr, ns, kind) = (rest % sizes + 2, rest / sizes % sizes + 2, rest / sizes / sizes);
        let pair = quadrilateral(&format!("rectangle{}", item % rects.len()), [[a, c], [b, c], [b, d], [a, d]]);
        let width = f64::max(b - a, d - c);
        two_dim(ctx, &pair, Some([a, b, c, d]), k, nr, ns, kind, width);
    });
    let mut pairs = quadrilaterals();
    pairs.extend(curved());
    let n = pairs.len();
    run.section("maps", n * sizes * sizes * 16, |ctx, item| {
        let rest = item / n;
        let (nr, ns, kind) = (rest % sizes + 2, rest / sizes % sizes + 2, rest / sizes / sizes);
        let pair = &pairs[item % n];
        let (a, b) = ((pair.d)(0, 0, -1.0, -1.0), (pair.d)(0, 0, 1.0, 1.0));
        let width = f64::max((a[0] - b[0]).abs(), (a[1] - b[1]).abs());
        two_dim(ctx, pair, None, [1.7; 2], nr, ns, kind, width);
    });
    let larger = run.pick(vec![(2, 9), (9, 2), (3, 10), (10, 3)], vec![(2, 9), (9, 2), (3, 10), (10, 3), (9, 8), (12, 5), (5, 16)]);
    run.section("larger", (rects.len() + n) * larger.len() * 16, |ctx, item| {
        let m = rects.len() + n;
        let (which, (nr, ns), kind) = (item % m, larger[item / m % larger.len()], item / m / larger.len());
        if which < rects.len() {
            let ([a, b, c, d], k) = rects[which];
            let pair = quadrilateral(&format!("rectangle{}", which), [[a, c], [b, c], [b, d], [a, d]]);
            two_dim(ctx, &pair, Some([a, b, c, d]), k, nr, ns, kind, f64::max(b - a, d - c));
        } else {
            let pair = &pairs[which - rects.len()];
            let (a, b) = ((pair.d)(0, 0, -1.0, -1.0), (pair.d)(0, 0, 1.0, 1.0));
            let width = f64::max((a[0] - b[0]).abs(), (a[1] - b[1]).abs());
            two_dim(ctx, pair, None, [1.7; 2], nr, ns, kind, width);
        }
    });
    refused(run);
}
