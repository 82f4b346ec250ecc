//! S03: histories of the direct solvers

use mc::*;
use num_complex::Complex64;
use russell_lab::{ComplexVector, Vector};
use russell_sparse::prelude::*;

/// Gaussian integer
type G = (i64, i64);

fn gmul(a: G, b: G) -> G {
    (a.0 * b.0 - a.1 * b.1, a.0 * b.1 + a.1 * b.0)
}

fn gadd(a: G, b: G) -> G {
    (a.0 + b.0, a.1 + b.1)
}

fn det(a: &[Vec<G>]) -> G {
    let n = a.len();
    if n == 1 {
        return a[0][0];
    }
    let mut s = (0, 0);
    for j in 0..n {
        if a[0][j] == (0, 0) {
            continue;
        }
        let minor: Vec<Vec<G>> = (1..n).map(|i| (0..n).filter(|k| *k != j).map(|k| a[i][k]).collect()).collect();
        let t = gmul(a[0][j], det(&minor));
        s = if j % 2 == 0 { gadd(s, t) } else { gadd(s, (-t.0, -t.1)) };
    }
    s
}

/// A matrix given by triples (possibly repeated)
#[derive(Clone)]
struct Mat {
    m: usize,
    n: usize,
    sym: Sym,
    t: Vec<(usize, usize, G)>,
}

impl Mat {
    fn from_dense(a: &[Vec<Option<G>>], sym: Sym) -> Mat {
        let mut t = Vec::new();
        for i in 0..a.len() {
            for j in 0..a[0].len() {
                if let Some(v) = a[i][j] {
                    t.push((i, j, v));
                }
            }
        }
        Mat { m: a.len(), n: a[0].len(), sym, t }
    }
    fn dense(&self) -> Vec<Vec<G>> {
        let mut a = vec![vec![(0, 0); self.n]; self.m];
        for (i, j, v) in &self.t {
            a[*i][*j] = gadd(a[*i][*j], *v);
            if crate::s01::tri(self.sym) && i != j {
                a[*j][*i] = gadd(a[*j][*i], *v);
            }
        }
        a
    }
    fn structure(&self) -> Vec<(usize, usize)> {
        let mut s: Vec<(usize, usize)> = self.t.iter().map(|t| (t.0, t.1)).collect();
        s.sort();
        s.dedup();
        s
    }
    /// singular because of its structure: no permutation without a zero
    fn structurally_singular(&self) -> bool {
        let a = self.dense();
        !permutations(self.n).iter().any(|p| (0..self.n).all(|i| a[i][p[i]] != (0, 0)))
    }
    /// exact solution (Cramer)
    fn solution(&self, b: &[G]) -> Option<Vec<Complex64>> {
        let a = self.dense();
        let d = det(&a);
        if d == (0, 0) {
            return None;
        }
        let dc = Complex64::new(d.0 as f64, d.1 as f64);
        Some(
            (0..self.n)
                .map(|k| {
                    let mut c = a.clone();
                    for i in 0..self.n {
                        c[i][k] = b[i];
                    }
                    let e = det(&c);
                    Complex64::new(e.0 as f64, e.1 as f64) / dc
                })
                .collect(),
        )
    }
}

/// The solvers under a single face
trait Face {
    fn create() -> Result<Box<Self>, String>;
    fn factorize(&mut self, a: &Mat, params: Option<LinSolParams>) -> Result<(), &'static str>;
    fn solve(&mut self, nx: usize, b: &[G]) -> Result<Vec<Complex64>, &'static str>;
    fn stats(&self) -> StatsLinSol;
    fn verify(a: &Mat, x: &[Complex64], b: &[G]) -> Result<VerifyLinSys, &'static str>;
    fn compute(a: &Mat, b: &[G], params: Option<LinSolParams>) -> Result<(Vec<Complex64>, StatsLinSol), &'static str>;
    const COMPLEX: bool;
}

struct Real(LinSolver<'static>);
struct Cplx(ComplexLinSolver<'static>);

fn real_coo(a: &Mat) -> CooMatrix {
    let mut c = CooMatrix::new(a.m, a.n, a.t.len().max(1), a.sym).unwrap();
    for (i, j, v) in &a.t {
        c.put(*i, *j, v.0 as f64).unwrap();
    }
    c
}

fn cplx_coo(a: &Mat) -> ComplexCooMatrix {
    let mut c = ComplexCooMatrix::new(a.m, a.n, a.t.len().max(1), a.sym).unwrap();
    for (i, j, v) in &a.t {
        c.put(*i, *j, Complex64::new(v.0 as f64, v.1 as f64)).unwrap();
    }
    c
}

fn real_vec(b: &[G]) -> Vector {
    Vector::from(&b.iter().map(|v| v.0 as f64).collect::<Vec<_>>())
}

fn cplx_vec(b: &[G]) -> ComplexVector {
    ComplexVector::from(&b.iter().map(|v| Complex64::new(v.0 as f64, v.1 as f64)).collect::<Vec<_>>())
}

impl Face for Real {
    const COMPLEX: bool = false;
    fn create() -> Result<Box<Self>, String> {
        Ok(Box::new(Real(LinSolver::new(Genie::Umfpack)?)))
    }
    fn factorize(&mut self, a: &Mat, params: Option<LinSolParams>) -> Result<(), &'static str> {
        self.0.actual.factorize(&real_coo(a), params)
    }
    fn solve(&mut self, nx: usize, b: &[G]) -> Result<Vec<Complex64>, &'static str> {
        let mut x = Vector::filled(nx, 123.0);
        let b0 = real_vec(b);
        let b1 = b0.clone();
        self.0.actual.solve(&mut x, &b1, false)?;
        if b0.as_data() != b1.as_data() {
            return Err("HARNESS: rhs changed");
        }
        Ok(x.as_data().iter().map(|v| Complex64::new(*v, 0.0)).collect())
    }
    fn stats(&self) -> StatsLinSol {
        let mut s = StatsLinSol::new();
        self.0.actual.update_stats(&mut s);
        s
    }
    fn verify(a: &Mat, x: &[Complex64], b: &[G]) -> Result<VerifyLinSys, &'static str> {
        let x: Vec<f64> = x.iter().map(|v| v.re).collect();
        VerifyLinSys::from(&real_coo(a), &Vector::from(&x), &real_vec(b))
    }
    fn compute(a: &Mat, b: &[G], params: Option<LinSolParams>) -> Result<(Vec<Complex64>, StatsLinSol), &'static str> {
        let mut x = Vector::new(a.n);
        let s = LinSolver::compute(Genie::Umfpack, &mut x, &real_coo(a), &real_vec(b), params)?;
        let mut st = StatsLinSol::new();
        s.actual.update_stats(&mut st);
        Ok((x.as_data().iter().map(|v| Complex64::new(*v, 0.0)).collect(), st))
    }
}

impl Face for Cplx {
    const COMPLEX: bool = true;
    fn create() -> Result<Box<Self>, String> {
        Ok(Box::new(Cplx(ComplexLinSolver::new(Genie::Umfpack)?)))
    }
    fn factorize(&mut self, a: &Mat, params: Option<LinSolParams>) -> Result<(), &'static str> {
        self.0.actual.factorize(&cplx_coo(a), params)
    }
    fn solve(&mut self, nx: usize, b: &[G]) -> Result<Vec<Complex64>, &'static str> {
        let mut x = ComplexVector::filled(nx, Complex64::new(123.0, 4.0));
        let b0 = cplx_vec(b);
        let b1 = b0.clone();
        self.0.actual.solve(&mut x, &b1, false)?;
        if b0.as_data() != b1.as_data() {
            return Err("HARNESS: rhs changed");
        }
        Ok(x.as_data().clone())
    }
    fn stats(&self) -> StatsLinSol {
        let mut s = StatsLinSol::new();
        self.0.actual.update_stats(&mut s);
        s
    }
    fn verify(a: &Mat, x: &[Complex64], b: &[G]) -> Result<VerifyLinSys, &'static str> {
        VerifyLinSys::from_complex(&cplx_coo(a), &ComplexVector::from(&x.to_vec()), &cplx_vec(b))
    }
    fn compute(a: &Mat, b: &[G], params: Option<LinSolParams>) -> Result<(Vec<Complex64>, StatsLinSol), &'static str> {
        let mut x = ComplexVector::new(a.n);
        let s = ComplexLinSolver::compute(Genie::Umfpack, &mut x, &cplx_coo(a), &cplx_vec(b), params)?;
        let mut st = StatsLinSol::new();
        s.actual.update_stats(&mut st);
        Ok((x.as_data().clone(), st))
    }
}

fn rhs(n: usize, complex: bool, k: usize) -> Vec<G> {
    (0..n).map(|i| ((i * i) as i64 + 1 - 3 * k as i64, if complex { 2 - i as i64 } else { 0 })).collect()
}

fn check_x<F: Face>(a: &Mat, x: &[Complex64], b: &[G]) -> Outcome {
    let e = a.solution(b).ok_or("solution of a singular matrix")?;
    let scale = e.iter().fold(1.0, |m, v| f64::max(m, v.norm()));
    for i in 0..e.len() {
        ensure!((x[i] - e[i]).norm() <= 1e-10 * scale, "x[{}] = {} instead of {}", i, x[i], e[i]);
    }
    // verification structure
    let v = F::verify(a, x, b)?;
    let d = a.dense();
    let (mut ax_max, mut diff_max, mut a_max) = (0.0, 0.0, 0.0);
    for i in 0..a.m {
        let mut s = Complex64::new(0.0, 0.0);
        for j in 0..a.n {
            s += Complex64::new(d[i][j].0 as f64, d[i][j].1 as f64) * x[j];
        }
        ax_max = f64::max(ax_max, s.norm());
        diff_max = f64::max(diff_max, (s - Complex64::new(b[i].0 as f64, b[i].1 as f64)).norm());
    }
    for t in &a.t {
        a_max = f64::max(a_max, f64::hypot(t.2 .0 as f64, t.2 .1 as f64));
    }
    ensure!(close(v.max_abs_a, a_max, 1e-13) && close(v.max_abs_ax, ax_max, 1e-11), "verify: {:?}", v);
    ensure!(f64::abs(v.max_abs_diff - diff_max) < 1e-11 * scale && rel(v.relative_error, v.max_abs_diff / (a_max + 1.0), 1e-12), "verify: {:?}", v);
    Ok(())
}

fn check_det(a: &Mat, st: &StatsLinSol) -> Outcome {
    let d = det(&a.dense());
    let f = f64::powf(st.determinant.base, st.determinant.exponent);
    let (re, im) = (st.determinant.mantissa_real * f, st.determinant.mantissa_imag * f);
    let scale = f64::max(1.0, f64::hypot(d.0 as f64, d.1 as f64));
    ensure!(f64::hypot(re - d.0 as f64, im - d.1 as f64) < 1e-10 * scale, "determinant {} {} instead of {:?}", re, im, d);
    Ok(())
}

const ORDERINGS: [Ordering; 12] = [
    Ordering::Auto,
    Ordering::Amd,
    Ordering::Amf,
    Ordering::Best,
    Ordering::BtfColamd,
    Ordering::Cholmod,
    Ordering::Colamd,
    Ordering::Metis,
    Ordering::No,
    Ordering::Pord,
    Ordering::Qamd,
    Ordering::Scotch,
];
const SCALINGS: [Scaling; 9] = [Scaling::Auto, Scaling::Column, Scaling::Diagonal, Scaling::Max, Scaling::No, Scaling::RowCol, Scaling::RowColIter, Scaling::RowColRig, Scaling::Sum];

fn single<F: Face>(t: &mut Trace, a: &Mat, params: Option<LinSolParams>) -> Outcome {
    t.ops(2);
    let b = rhs(a.n, F::COMPLEX, 0);
    let d = det(&a.dense());
    let r = F::compute(a, &b, params);
    let mut p = params.unwrap_or(LinSolParams::new());
    if d == (0, 0) {
        // rounding caused by row scaling may hide the singularity
        if p.scaling == Scaling::No || a.structurally_singular() {
            ensure!(r.is_err(), "singular matrix not reported");
        }
        return Ok(());
    }
    let (x, st) = r?;
    check_x::<F>(a, &x, &b)?;
    if p.compute_determinant {
        check_det(a, &st)?;
    }
    ensure!(st.main.solver == "UMFPACK", "solver name {}", st.main.solver);
    let rc = st.output.umfpack_rcond_estimate;
    ensure!(rc > 0.0 && rc <= 1.0, "reciprocal condition number {}", rc);
    let scal = match p.scaling {
        Scaling::Max => "Max",
        Scaling::No => "No",
        _ => "Sum",
    };
    ensure!(st.output.effective_scaling == scal, "effective scaling {}", st.output.effective_scaling);
    if p.umfpack_enforce_unsymmetric_strategy {
        ensure!(st.output.umfpack_strategy == "Unsymmetric", "strategy {}", st.output.umfpack_strategy);
    }
    ensure!(st.time_nanoseconds.initialize_array.len() == 1 && st.time_nanoseconds.factorize_array.len() == 1 && st.time_nanoseconds.solve_array.len() == 1, "times");
    // the same with separate calls, and with a solver that has solved before
    p.verbose = false;
    let mut s = F::create()?;
    s.factorize(a, Some(p))?;
    for k in 0..2 {
        let b = rhs(a.n, F::COMPLEX, k);
        let x = s.solve(a.n, &b)?;
        check_x::<F>(a, &x, &b)?;
    }
    s.factorize(a, None)?;
    let x2 = s.solve(a.n, &b)?;
    ensure!(x2 == x, "refactorization of the same matrix gives {:?} instead of {:?}", x2, x);
    Ok(())
}

fn matrices<F: Face>(run: &mut Run, name: &str) {
    // all matrices of order up to 3 with small entries
    let mut work = Vec::new();
    for (n, base, sym) in [(1, 5, Sym::No), (2, 5, Sym::No), (3, 3, Sym::No), (1, 3, Sym::YesFull), (2, 4, Sym::YesFull), (3, 3, Sym::YesFull)] {
        for first in 0..base {
            work.push((n, base, sym, first));
        }
    }
    run.section(name, work.len(), |ctx, w| {
        let (n, base, sym, first) = work[w];
        // choices: absent, 1, -1, explicit zero, 2 (complex: multiplied by units)
        let free: Vec<(usize, usize)> = (0..n).flat_map(|i| (0..(if sym == Sym::No { n } else { i + 1 })).map(move |j| (i, j))).collect();
        for idx in 0..pow(base, free.len() - 1) {
            let mut d = digits(idx, base, free.len() - 1);
            d.insert(0, first);
            for opt in 0..3 {
                ctx.case(format!("n={} {:?} choice={:?} opt={}", n, sym, d, opt), |t| {
                    let mut a = vec![vec![None; n]; n];
                    for (k, c) in d.iter().enumerate() {
                        let v = [None, Some(1), Some(-1), Some(2), Some(0)][*c];
                        if let Some(v) = v {
                            let unit: G = if !F::COMPLEX { (1, 0) } else { [(1, 0), (0, 1), (1, -1), (2, 1)][k % 4] };
                            let e = (v * unit.0, v * unit.1);
                            let (i, j) = free[k];
                            a[i][j] = Some(e);
                            if sym != Sym::No {
                                a[j][i] = Some(e);
                            }
                        }
                    }
                    let a = Mat::from_dense(&a, sym);
                    t.state(&(n, sym as usize, &d));
                    if a.t.is_empty() {
                        let mut s = F::create()?;
                        ensure!(s.factorize(&a, None).is_err() && s.solve(n, &rhs(n, F::COMPLEX, 0)).is_err(), "empty matrix accepted");
                        return Ok(());
                    }
                    let mut p = LinSolParams::new();
                    match opt {
                        0 => return single::<F>(t, &a, None),
                        1 => {
                            p.compute_determinant = true;
                            p.scaling = Scaling::No;
                        }
                        _ => {
                            p.compute_determinant = true;
                            p.umfpack_enforce_unsymmetric_strategy = true;
                            p.ordering = Ordering::No;
                            p.scaling = Scaling::Max;
                        }
                    }
                    single::<F>(t, &a, Some(p))
                });
            }
        }
    });
}

/// Structured matrices of larger order with all options
fn options<F: Face>(run: &mut Run, name: &str) {
    let max = run.pick(6, 7);
    run.section(name, ORDERINGS.len() * SCALINGS.len(), |ctx, w| {
        let (ordering, scaling) = (ORDERINGS[w / 9], SCALINGS[w % 9]);
        for n in 1..=max {
            for kind in 0..6 {
                for flags in 0..4 {
                    ctx.case(format!("{:?} {:?} n={} kind={} flags={}", ordering, scaling, n, kind, flags), |t| {
                        let mut a = vec![vec![None; n]; n];
                        for i in 0..n {
                            for j in 0..n {
                                let k = (i * n + j) as i64;
                                let v = match kind {
                                    0 => (i == j).then_some(i as i64 + 2),                               // diagonal
                                    1 => (i + j == n - 1).then_some(1 + i as i64),                       // anti-diagonal
                                    2 => (i.abs_diff(j) <= 1).then_some(if i == j { 4 } else { -1 }),    // tridiagonal
                                    3 => (j <= i).then_some(1 + k % 3),                                  // lower
                                    4 => (i == 0 || j == 0 || i == j).then_some(if i == j { n as i64 + 3 } else { 1 }), // arrow
                                    _ => (k % 3 != 1 || i == j).then_some(if i == j { 9 } else { (k * k) % 5 - 2 }),
                                };
                                a[i][j] = v.map(|v| if F::COMPLEX { gmul((v, 0), [(1, 0), (1, 1), (0, 1)][(i + j) % 3]) } else { (v, 0) });
                            }
                        }
                        let symmetric = (0..n).all(|i| (0..n).all(|j| a[i][j] == a[j][i]));
                        let mut m = Mat::from_dense(&a, if symmetric && flags & 1 == 1 { Sym::YesFull } else { Sym::No });
                        // duplicate entries and reversed order
                        if flags & 2 == 2 {
                            let extra: Vec<_> = m.t.iter().map(|t| (t.0, t.1, gmul(t.2, (2, 0)))).collect();
                            m.t.extend(extra);
                            m.t.reverse();
                        }
                        let mut p = LinSolParams::new();
                        p.ordering = ordering;
                        p.scaling = scaling;
                        p.compute_determinant = true;
                        p.umfpack_enforce_unsymmetric_strategy = flags & 1 == 0 && kind % 2 == 0;
                        t.state(&(n, kind, flags));
                        single::<F>(t, &m, Some(p))
                    });
                }
            }
        }
    });
}

fn histories<F: Face>(run: &mut Run, name: &str) {
    let depth = run.pick(6, 7);
    // matrices: 0,1 same structure; 2 singular with the same structure; 3 same count but another structure;
    // 4 another count; 5 another order; 6 other symmetry; 7 rectangular; 8 same structure written with duplicates of the same count
    let mk = |a: [[Option<i64>; 3]; 3], sym: Sym| {
        let d: Vec<Vec<Option<G>>> = a.iter().enumerate().map(|(i, r)| r.iter().enumerate().map(|(j, v)| v.map(|v| if F::COMPLEX { gmul((v, 0), [(1, 0), (1, 2), (0, 1)][(i + j) % 3]) } else { (v, 0) })).collect()).collect();
        Mat::from_dense(&d, sym)
    };
    let (o, z) = (None, Some(0));
    let s = Some;
    let mut mats = vec![
        mk([[s(2), s(1), o], [s(1), s(3), s(1)], [o, s(1), s(4)]], Sym::No),
        mk([[s(-1), s(2), o], [s(5), z, s(1)], [o, s(-3), s(2)]], Sym::No),
        mk([[s(1), s(2), o], [z, z, z], [o, s(1), s(4)]], Sym::No),
        mk([[s(2), o, s(1)], [s(1), s(3), s(1)], [s(1), o, s(4)]], Sym::No),
        mk([[s(2), s(1), o], [s(1), s(3), s(1)], [s(7), s(1), s(4)]], Sym::No),
        Mat { m: 2, n: 2, sym: Sym::No, t: vec![(0, 0, (2, 0)), (1, 1, (3, 0)), (0, 1, (1, 0)), (1, 0, (1, 0)), (0, 0, (1, 0)), (1, 1, (1, 0)), (1, 1, (1, 0))] },
        mk([[s(2), s(1), o], [s(1), s(3), s(1)], [o, s(1), s(4)]], Sym::YesFull),
        Mat { m: 3, n: 4, sym: Sym::No, t: vec![(0, 0, (2, 0)), (1, 1, (3, 0)), (2, 2, (1, 0)), (0, 3, (1, 0)), (1, 0, (1, 0)), (2, 1, (1, 0)), (2, 3, (1, 0))] },
        Mat { m: 3, n: 3, sym: Sym::No, t: vec![(0, 0, (2, 0)), (1, 1, (3, 0)), (2, 2, (1, 0)), (0, 0, (1, 0)), (1, 1, (1, 0)), (2, 1, (1, 0)), (0, 1, (1, 0))] },
        Mat { m: 3, n: 3, sym: Sym::YesLower, t: vec![(0, 0, (2, 0)), (1, 1, (3, 0)), (2, 2, (1, 0)), (1, 0, (1, 0)), (2, 1, (1, 0)), (2, 0, (1, 0)), (2, 2, (1, 0))] },
    ];
    // exercise another insertion order too
    mats[1].t.reverse();
    let nm = mats.len();
    // operations: factorize each matrix; factorize 0 with parameters; solve; solve with wrong x; with wrong rhs
    let n_ops = nm + 4;
    run.section(name, n_ops * n_ops * 2, |ctx, w| {
        let with_det = w % 2 == 1;
        let head = digits(w / 2, n_ops, 2);
        for len in 1..=depth {
            if len == 1 && head[1] != 0 {
                continue;
            }
            for idx in 0..(if len > 2 { pow(n_ops, len - 2) } else { 1 }) {
                let mut seq = head.clone();
                seq.truncate(len);
                if len > 2 {
                    seq.extend(digits(idx, n_ops, len - 2));
                }
                // every prefix is checked on the way; skip the ones ending without a solve
                if seq[len - 1] != nm + 1 {
                    continue;
                }
                ctx.case(format!("det={} ops={:?}", with_det, seq), |t| {
                    let mut sol = F::create()?;
                    let mut structure: Option<usize> = None; // matrix that defined the structure
                    let mut current: Option<usize> = None; // factorized matrix
                    let mut unsure = false; // a refused refactorization may drop the factors or keep them
                    for (step, op) in seq.iter().enumerate() {
                        t.op();
                        if *op < nm || *op == nm {
                            let k = if *op == nm { 0 } else { *op };
                            let a = &mats[k];
                            let first = structure.is_none();
                            let mut p = LinSolParams::new();
                            p.compute_determinant = with_det;
                            let par = if *op == nm || (first && with_det) { Some(p) } else { None };
                            let r = sol.factorize(a, par);
                            let square = a.m == a.n && a.sym != Sym::YesLower;
                            let singular = square && det(&a.dense()) == (0, 0);
                            if first {
                                ensure!(r.is_ok() == (square && !singular), "step {}: first factorization of {} gives {:?}", step, k, r);
                                if square {
                                    structure = Some(k);
                                }
                                if r.is_ok() {
                                    current = Some(k);
                                    unsure = false;
                                }
                            } else {
                                let base = &mats[structure.unwrap()];
                                let compatible = square && a.n == base.n && a.sym == base.sym && a.t.len() == base.t.len() && *op != nm;
                                if !compatible {
                                    ensure!(r.is_err(), "step {}: incompatible factorization of {} accepted", step, k);
                                    // refused before touching anything
                                } else if a.structure() == base.structure() {
                                    ensure!(r.is_ok() == !singular, "step {}: factorization of {} gives {:?}", step, k, r);
                                    current = if r.is_ok() { Some(k) } else { None };
                                    unsure = false;
                                } else {
                                    // changed structure: refused or handled
                                    if r.is_ok() {
                                        ensure!(!singular, "step {}: changed, singular matrix {} accepted", step, k);
                                        current = Some(k);
                                        unsure = false;
                                    } else {
                                        unsure = true;
                                    }
                                }
                            }
                            continue;
                        }
                        let n = structure.map(|k| mats[k].n).unwrap_or(3);
                        let b = rhs(n, F::COMPLEX, step);
                        match *op - nm {
                            1 => {
                                let r = sol.solve(n, &b);
                                match (current, &r) {
                                    (Some(k), Ok(x)) => {
                                        check_x::<F>(&mats[k], x, &b)?;
                                        if with_det {
                                            check_det(&mats[k], &sol.stats())?;
                                        }
                                    }
                                    (Some(_), Err(e)) => ensure!(unsure && !e.starts_with("HARNESS"), "step {}: solve gives {}", step, e),
                                    (None, Ok(_)) => fail!("step {}: solve without a valid factorization succeeds", step),
                                    (None, Err(_)) => {}
                                }
                            }
                            2 => ensure!(sol.solve(n + 1, &b).is_err(), "step {}: wrong x accepted", step),
                            _ => ensure!(sol.solve(n, &rhs(n + 1, F::COMPLEX, step)).is_err(), "step {}: wrong rhs accepted", step),
                        }
                    }
                    t.state(&(with_det, structure, current, unsure));
                    Ok(())
                });
            }
        }
    });
}

/// All pairs of patterns of order 3 with the same number of entries
fn structures<F: Face>(run: &mut Run, name: &str) {
    run.section(name, 512, |ctx, w| {
        let mat = |pattern: usize, shift: i64| {
            let d: Vec<Vec<Option<G>>> = (0..3)
                .map(|i| {
                    (0..3)
                        .map(|j| {
                            let k = 3 * i + j;
                            let v = [7, 1, 2, -1, 8, 3, 2, -2, 9][k] + shift;
                            (pattern >> k & 1 == 1).then_some(if F::COMPLEX { (v, k as i64 - 4) } else { (v, 0) })
                        })
                        .collect()
                })
                .collect();
            Mat::from_dense(&d, Sym::No)
        };
        if w == 0 {
            return;
        }
        let a = mat(w, 0);
        for q in 1..512usize {
            if q.count_ones() != w.count_ones() {
                continue;
            }
            ctx.case(format!("patterns {} {}", w, q), |t| {
                t.ops(4);
                let b = mat(q, 4);
                let mut s = F::create()?;
                let ok_a = det(&a.dense()) != (0, 0);
                let ok_b = det(&b.dense()) != (0, 0);
                let r = s.factorize(&a, None);
                ensure!(r.is_ok() == ok_a || (r.is_ok() && !a.structurally_singular()), "first: {:?}", r);
                let r = s.factorize(&b, None);
                let f = rhs(3, F::COMPLEX, 1);
                if q == w {
                    ensure!(r.is_ok() == ok_b || (r.is_ok() && !b.structurally_singular()), "second: {:?}", r);
                } else {
                    ensure!(r.is_err() || !b.structurally_singular(), "changed, structurally singular matrix accepted");
                }
                if r.is_ok() && ok_b {
                    check_x::<F>(&b, &s.solve(3, &f)?, &f)?;
                }
                // back to the first matrix
                let r = s.factorize(&a, None);
                ensure!(r.is_ok() == ok_a || (r.is_ok() && !a.structurally_singular()), "third: {:?}", r);
                if ok_a {
                    check_x::<F>(&a, &s.solve(3, &f)?, &f)?;
                }
                t.state(&(w, q));
                Ok(())
            });
        }
    });
}

/// Every order up to a bound: known integer solution, known determinant (also beyond the range of floating-point numbers)
fn larger<F: Face>(run: &mut Run, name: &str) {
    let max = run.pick(48, 120);
    run.section(name, max, |ctx, w| {
        let n = w + 1;
        let step = [7, 5, 11, 13].into_iter().find(|p| n % p != 0).unwrap();
        let perm: Vec<usize> = (0..n).map(|i| (i * step + 3) % n).collect();
        for kind in 0..6 {
            ctx.case(format!("n={n} kind={kind}"), |t| {
                let unit = |i: usize, j: usize| -> G { if F::COMPLEX { [(1, 0), (1, 2), (0, 1)][(i + j) % 3] } else { (1, 0) } };
                let mut a: Vec<(usize, usize, G)> = Vec::new();
                for i in 0..n {
                    for j in 0..n {
                        let v = match kind {
                            // triangular, with permuted rows in kinds 2 and 3
                            0 | 2 => (j <= i && (i - j <= 2 || j == 0)).then_some(if i == j { 1000 } else { 1 + (i + j) as i64 % 3 }),
                            1 | 3 => (j >= i && (j - i <= 3)).then_some(if i == j { -7 } else { (i * j) as i64 % 3 - 1 }),
                            // dominant: band and arrow
                            4 => (i.abs_diff(j) <= 2).then_some(if i == j { 12 } else { -1 - ((i + j) % 2) as i64 }),
                            _ => (i == j || i + 1 == n || j + 1 == n).then_some(if i == j { 3 * n as i64 } else { 1 }),
                        };
                        if let Some(v) = v {
                            let r = if kind == 2 || kind == 3 { perm[i] } else { i };
                            a.push((r, j, gmul((v, 0), if kind < 4 && i != j { (1, 0) } else { unit(i, j) })));
                        }
                    }
                }
                if kind == 3 {
                    a.reverse();
                }
                let m = Mat { m: n, n, sym: Sym::No, t: a };
                let mut s = F::create()?;
                let mut p = LinSolParams::new();
                p.compute_determinant = true;
                for round in 0..3i64 {
                    t.ops(2);
                    // the same structure with other values in the second round
                    let mut b = m.clone();
                    if round == 1 {
                        b.t.iter_mut().for_each(|e| e.2 = gmul(e.2, if F::COMPLEX { (0, 3) } else { (-3, 0) }));
                    }
                    s.factorize(&b, if round == 0 { Some(p) } else { None })?;
                    let x: Vec<G> = (0..n).map(|i| ((i as i64 * 3 + round) % 11 - 5, if F::COMPLEX { i as i64 % 4 - round } else { 0 })).collect();
                    let mut f = vec![(0, 0); n];
                    for (i, j, v) in &b.t {
                        f[*i] = gadd(f[*i], gmul(*v, x[*j]));
                    }
                    let y = s.solve(n, &f)?;
                    for i in 0..n {
                        let e = Complex64::new(x[i].0 as f64, x[i].1 as f64);
                        ensure!((y[i] - e).norm() <= 1e-9, "round {round}: x[{i}] = {} instead of {e}", y[i]);
                    }
                    if kind < 4 {
                        // log10 of the modulus, and the argument
                        let (mut lg, mut arg) = (0.0, 0.0);
                        for i in 0..n {
                            let u = gmul(unit(i, i), if round == 1 { if F::COMPLEX { (0, 3) } else { (-3, 0) } } else { (1, 0) });
                            let v = gmul((if kind % 2 == 0 { 1000 } else { -7 }, 0), u);
                            lg += f64::hypot(v.0 as f64, v.1 as f64).log10();
                            arg += f64::atan2(v.1 as f64, v.0 as f64);
                        }
                        if kind >= 2 {
                            let mut seen = vec![false; n];
                            for i in 0..n {
                                let (mut k, mut len) = (i, 0);
                                while !seen[k] {
                                    seen[k] = true;
                                    k = perm[k];
                                    len += 1;
                                }
                                if len > 0 && len % 2 == 0 {
                                    arg += std::f64::consts::PI;
                                }
                            }
                        }
                        let d = s.stats().determinant;
                        let got = f64::hypot(d.mantissa_real, d.mantissa_imag).log10() + d.exponent * d.base.log10();
                        ensure!((got - lg).abs() <= 1e-9 * (1.0 + lg.abs()), "round {round}: log10 |det| = {got} instead of {lg}");
                        let a = f64::atan2(d.mantissa_imag, d.mantissa_real) - arg;
                        ensure!((a.cos() - 1.0).abs() < 1e-9 && a.sin().abs() < 1e-7, "round {round}: argument of the determinant");
                    }
                }
                t.state(&(n, kind));
                Ok(())
            });
        }
    });
}

/// A matrix of the same structure in which any subset of the entries differs in any one respect
fn partial<F: Face>(run: &mut Run, name: &str) {
    let cells: [(usize, usize); 7] = [(0, 0), (0, 1), (1, 0), (1, 1), (1, 2), (2, 1), (2, 2)];
    let re: [i64; 7] = [7, 2, -1, 8, 3, -2, 9];
    let im: [i64; 7] = [1, -2, 3, 2, -1, 1, -3];
    run.section(name, 128, |ctx, subset| {
        // 0 other real part, 1 other imaginary part, 2 opposite sign, 3 complex conjugate, 4 values permuted (same sums),
        // 5 zero instead of the value
        for kind in 0..6 {
            if !F::COMPLEX && (kind == 1 || kind == 3) {
                continue;
            }
            for with_det in [false, true] {
                ctx.case(format!("entries {subset:07b} kind {kind} det={with_det}"), |t| {
                    let value = |k: usize, changed: bool| -> G {
                        let v = (re[k], if F::COMPLEX { im[k] } else { 0 });
                        if !changed || subset >> k & 1 == 0 {
                            return v;
                        }
                        match kind {
                            0 => (v.0 + 5, v.1),
                            1 => (v.0, v.1 + 5),
                            2 => (-v.0, -v.1),
                            3 => (v.0, -v.1),
                            4 => {
                                // the next entry of the subset
                                let q = (1..=7).map(|d| (k + d) % 7).find(|q| subset >> q & 1 == 1).unwrap();
                                (re[q], if F::COMPLEX { im[q] } else { 0 })
                            }
                            _ => (0, 0),
                        }
                    };
                    let make = |changed: bool| Mat {
                        m: 3,
                        n: 3,
                        sym: Sym::No,
                        t: (0..7).map(|k| (cells[k].0, cells[k].1, value(k, changed))).collect(),
                    };
                    let mats = [make(false), make(true)];
                    let mut s = F::create()?;
                    let mut p = LinSolParams::new();
                    p.compute_determinant = with_det;
                    for (step, which) in [0, 1, 0, 1, 1].iter().enumerate() {
                        let a = &mats[*which];
                        t.ops(2);
                        let r = s.factorize(a, if step == 0 { Some(p) } else { None });
                        if det(&a.dense()) == (0, 0) {
                            ensure!(r.is_err() || !a.structurally_singular(), "step {step}: singular matrix accepted");
                            continue;
                        }
                        r?;
                        // right-hand sides that differ in some components only
                        for rs in 0..8usize {
                            let b: Vec<G> = (0..3).map(|i| (1 + i as i64 + if rs >> i & 1 == 1 { 4 } else { 0 }, if F::COMPLEX { 2 - i as i64 } else { 0 })).collect();
                            check_x::<F>(a, &s.solve(3, &b)?, &b)?;
                        }
                        if with_det {
                            check_det(a, &s.stats())?;
                        }
                    }
                    t.state(&(subset, kind, with_det));
                    Ok(())
                });
            }
        }
    });
}

pub fn explore(run: &mut Run) {
    run.level(
        "model_checking",
        "all matrices of order up to 3 with small (Gaussian) integer entries, structured ones with all orderings and scalings, and all call sequences over ten matrices (same structure, singular, changed structure, changed count, order, symmetry, rectangular) in lock-step with a model of the solver state; exact solutions and determinants by Cramer's rule",
    );
    run.assume("UMFPACK is the only solver library in this build; numerically singular matrices are only required to be refused without row scaling or when structurally singular");
    matrices::<Real>(run, "matrices real");
    matrices::<Cplx>(run, "matrices complex");
    options::<Real>(run, "options real");
    options::<Cplx>(run, "options complex");
    structures::<Real>(run, "structures real");
    structures::<Cplx>(run, "structures complex");
    larger::<Real>(run, "larger real");
    larger::<Cplx>(run, "larger complex");
    partial::<Real>(run, "partial changes real");
    partial::<Cplx>(run, "partial changes complex");
    histories::<Real>(run, "histories real");
    histories::<Cplx>(run, "histories complex");
}
