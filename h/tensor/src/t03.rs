//! T03: invariants, inverses, spectral form and derivatives agree with their definitions

use crate::reft::*;
use mc::*;
use russell_lab::Vector;
use russell_tensor::*;
use std::ops::{Add, Div, Mul, Sub};

/// Number carrying two first derivatives and the mixed second derivative
#[derive(Clone, Copy)]
struct H {
    v: f64,
    a: f64,
    b: f64,
    c: f64,
}

impl H {
    fn new(v: f64, a: f64, b: f64) -> H {
        H { v, a, b, c: 0.0 }
    }
    fn k(v: f64) -> H {
        H { v, a: 0.0, b: 0.0, c: 0.0 }
    }
    /// f(x) given the value and the first two derivatives of f
    fn chain(self, f: f64, f1: f64, f2: f64) -> H {
        H { v: f, a: f1 * self.a, b: f1 * self.b, c: f1 * self.c + f2 * self.a * self.b }
    }
    fn pow(self, p: f64) -> H {
        let x = self.v;
        self.chain(x.powf(p), p * x.powf(p - 1.0), p * (p - 1.0) * x.powf(p - 2.0))
    }
}

impl Add for H {
    type Output = H;
    fn add(self, o: H) -> H {
        H { v: self.v + o.v, a: self.a + o.a, b: self.b + o.b, c: self.c + o.c }
    }
}

impl Sub for H {
    type Output = H;
    fn sub(self, o: H) -> H {
        H { v: self.v - o.v, a: self.a - o.a, b: self.b - o.b, c: self.c - o.c }
    }
}

impl Mul for H {
    type Output = H;
    fn mul(self, o: H) -> H {
        H {
            v: self.v * o.v,
            a: self.a * o.v + self.v * o.a,
            b: self.b * o.v + self.v * o.b,
            c: self.c * o.v + self.a * o.b + self.b * o.a + self.v * o.c,
        }
    }
}

impl Div for H {
    type Output = H;
    fn div(self, o: H) -> H {
        let x = o.v;
        self * o.chain(1.0 / x, -1.0 / (x * x), 2.0 / (x * x * x))
    }
}

type HM = [[H; 3]; 3];

fn lift(x: &A2, p: &A2, q: &A2) -> HM {
    let mut m = [[H::k(0.0); 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            m[i][j] = H::new(x[i][j], p[i][j], q[i][j]);
        }
    }
    m
}

fn hdet(a: &HM) -> H {
    a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0])
        + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0])
}

fn hdev(a: &HM) -> HM {
    let m = (a[0][0] + a[1][1] + a[2][2]) / H::k(3.0);
    let mut s = *a;
    for i in 0..3 {
        s[i][i] = s[i][i] - m;
    }
    s
}

/// Sum of the squares of all components
fn hsq(a: &HM) -> H {
    let mut s = H::k(0.0);
    for i in 0..3 {
        for j in 0..3 {
            s = s + a[i][j] * a[i][j];
        }
    }
    s
}

fn hj2(a: &HM) -> H {
    hsq(&hdev(a)) * H::k(0.5)
}

fn hj3(a: &HM) -> H {
    hdet(&hdev(a))
}

fn hlode(a: &HM) -> H {
    hj3(a) * H::k(1.5 * 3f64.sqrt()) / hj2(a).pow(1.5)
}

fn hinv(a: &HM) -> HM {
    let det = hdet(a);
    let mut r = *a;
    for i in 0..3 {
        for j in 0..3 {
            let (p, q) = ((i + 1) % 3, (i + 2) % 3);
            let (u, v) = ((j + 1) % 3, (j + 2) % 3);
            r[j][i] = (a[p][u] * a[q][v] - a[p][v] * a[q][u]) / det;
        }
    }
    r
}

/// Small-integer tensors: component lists by representation
fn count(rep: Rep, run: &Run) -> (usize, usize) {
    // (number of digits, base)
    match rep {
        Rep::General => (9, run.pick(3, 4)),
        Rep::Symmetric => (6, run.pick(5, 7)),
        Rep::Symmetric2D => (4, run.pick(9, 15)),
    }
}

fn build(rep: Rep, d: &[usize], base: usize) -> A2 {
    let mut a = zero2();
    let off = (base / 2) as f64;
    for m in 0..rep.dim() {
        let (i, j) = PAIRS[m];
        let v = d[m] as f64 - off;
        a[i][j] = v;
        if rep != Rep::General {
            a[j][i] = v;
        }
    }
    a
}

const SCALES: [f64; 6] = [1.0, 1e-3, 3e7, 0.1, 1e-11, 1e13];

fn sym_dirs() -> Vec<A2> {
    basis(Rep::Symmetric)
}

/// Values of all scalar functions, the deviator, the square and the inverse
fn values(a: &A2, rep: Rep, tol: f64) -> Outcome {
    let s = f64::max(max2(a), 1e-300);
    let t = t2(a, rep)?;
    let tr = tr2(a);
    let mut dev = *a;
    for i in 0..3 {
        dev[i][i] -= tr / 3.0;
    }
    let at = transp2(a);
    let norm = ddot2(a, a).sqrt();
    let dnorm = ddot2(&dev, &dev).sqrt();
    let j2 = ddot2(&dev, &transp2(&dev)) / 2.0;
    let ii2 = (tr * tr - ddot2(a, &at)) / 2.0;
    let sq3 = 3f64.sqrt();
    let sq32 = 1.5f64.sqrt();
    let sq23 = (2.0f64 / 3.0).sqrt();
    let chk = |name: &str, got: f64, want: f64, p: i32| -> Outcome {
        ensure!((got - want).abs() <= tol * s.powi(p), "{name} is {got} instead of {want}");
        Ok(())
    };
    chk("trace", t.trace(), tr, 1)?;
    chk("norm", t.norm(), norm, 1)?;
    chk("determinant", t.determinant(), det2(a), 3)?;
    // square roots of rounding errors near zero
    let q = |x: f64| if x < 1e-6 * s { 1e-7 * s } else { 0.0 };
    let near0 = |name: &str, got: f64, want: f64| -> Outcome {
        ensure!((got - want).abs() <= tol * s + q(want), "{name} is {got} instead of {want}");
        Ok(())
    };
    near0("deviator_norm", t.deviator_norm(), dnorm)?;
    chk("deviator_determinant", t.deviator_determinant(), det2(&dev), 3)?;
    chk("II1", t.invariant_ii1(), tr, 1)?;
    chk("II2", t.invariant_ii2(), ii2, 2)?;
    chk("II3", t.invariant_ii3(), det2(a), 3)?;
    chk("J2", t.invariant_jj2(), j2, 2)?;
    chk("J3", t.invariant_jj3(), det2(&dev), 3)?;
    chk("sigma_s", t.invariant_sigma_s(), tr / sq3, 1)?;
    near0("sigma_t", t.invariant_sigma_t(), dnorm)?;
    chk("p", t.invariant_p(), tr / 3.0, 1)?;
    near0("q", t.invariant_q(), dnorm * sq32)?;
    chk("eps_s", t.invariant_eps_s(), tr / sq3, 1)?;
    near0("eps_t", t.invariant_eps_t(), dnorm)?;
    chk("eps_v", t.invariant_eps_v(), tr, 1)?;
    near0("eps_d", t.invariant_eps_d(), dnorm * sq23)?;
    let lode = t.invariant_lode();
    let sure = (j2 - TOL_J2).abs() > 1e-6 * TOL_J2 + 1e-12 * s * s;
    if sure {
        ensure!(lode.is_some() == (j2 > TOL_J2), "Lode invariant {lode:?} with J2 = {j2}");
    }
    if let Some(l) = lode {
        let want = 1.5 * sq3 * det2(&dev) / j2.powf(1.5);
        // J2 of general tensors may vanish by cancellation
        if j2 > 1e-6 * s * s {
            ensure!((l - want).abs() <= tol * 100.0 * f64::max(1.0, want.abs()), "Lode is {l} instead of {want}");
        }
        if rep != Rep::General {
            ensure!(l.abs() <= 1.0, "Lode invariant {l} outside [-1, 1]");
        }
    }
    let (d, r, l) = t.invariants_octahedral();
    chk("octahedral distance", d, tr / sq3, 1)?;
    near0("octahedral radius", r, dnorm)?;
    ensure!(l == lode, "octahedral Lode {l:?}");
    if rep != Rep::General {
        // the diagonal tensor with the same octahedral invariants has the same principal invariants
        if let Some(l) = l {
            let x = Tensor2::new_from_octahedral(d, r, l, rep.two_dim())?;
            ensure!(x.rep() == rep, "new_from_octahedral has {:?}", x.rep());
            let b = std2(&x);
            for i in 0..3 {
                for j in 0..3 {
                    ensure!(i == j || b[i][j] == 0.0, "not diagonal");
                }
            }
            let tol = tol * 1e4;
            let chk = |name: &str, got: f64, want: f64, p: i32| -> Outcome {
                ensure!((got - want).abs() <= tol * s.powi(p), "rebuilt {name} is {got} instead of {want}");
                Ok(())
            };
            chk("trace", tr2(&b), tr, 1)?;
            chk("II2", x.invariant_ii2(), ii2, 2)?;
            chk("determinant", det2(&b), det2(a), 3)?;
        }
    }
    // deviator, square, inverse
    let mut x = dirty2(rep, f64::NAN);
    t.deviator(&mut x);
    for i in 0..3 {
        for j in 0..3 {
            ensure!((x.get_std(i, j) - dev[i][j]).abs() <= tol * s, "deviator {i}{j} is {}", x.get_std(i, j));
        }
    }
    let mut x = dirty2(rep, f64::NAN);
    t.squared(&mut x);
    let sq = mul2(a, a);
    for i in 0..3 {
        for j in 0..3 {
            ensure!((x.get_std(i, j) - sq[i][j]).abs() <= tol * s * s, "square {i}{j} is {}", x.get_std(i, j));
        }
    }
    let det = det2(a);
    let limit = 1e-10 * s.powi(3);
    let mut x = dirty2(rep, f64::NAN);
    match t.inverse(&mut x, limit) {
        None => ensure!(det.abs() <= limit * 1.001, "regular tensor with determinant {det} refused"),
        Some(d) => {
            ensure!(det.abs() >= limit * 0.999, "singular tensor inverted");
            chk("determinant from inverse", d, det, 3)?;
            let i1 = mul2(&std2(&x), a);
            let i2 = mul2(a, &std2(&x));
            let id = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]];
            same2(&i1, &id, tol * 1e3).map_err(|e| format!("inverse times tensor: {e}"))?;
            same2(&i2, &id, tol * 1e3).map_err(|e| format!("tensor times inverse: {e}"))?;
        }
    }
    // a tolerance above the determinant refuses it
    let mut x = Tensor2::new(rep);
    ensure!(t.inverse(&mut x, det.abs() * 1.01 + limit).is_none(), "inverse ignores the tolerance");
    Ok(())
}

fn invariants(run: &mut Run) {
    for rep in REPS {
        let (nd, base) = count(rep, run);
        let total = pow(base, nd);
        let chunk = 64.min(total);
        run.section(&format!("values {rep:?}"), total.div_ceil(chunk), |ctx, w| {
            for idx in w * chunk..total.min((w + 1) * chunk) {
                let d = digits(idx, base, nd);
                let a0 = build(rep, &d, base);
                for s in SCALES {
                    ctx.case(format!("{rep:?} {d:?} x {s}"), |t| {
                        t.op();
                        t.state(&(rep.dim(), idx, hash_f64(&[s])));
                        values(&scale2(s, &a0), rep, 2e-13)
                    });
                }
            }
        });
    }
}

/// One derivative against the true directional derivative
fn d1_ok(name: &str, d1: &Tensor2, dirs: &[A2], f: impl Fn(&A2) -> H, tol: f64) -> Outcome {
    let d = std2(d1);
    for (k, p) in dirs.iter().enumerate() {
        let want = f(p).a;
        let got = ddot2(&d, p);
        ensure!((got - want).abs() <= tol, "{name} along {k} is {got} instead of {want}");
    }
    Ok(())
}

fn d2_ok(name: &str, d2: &Tensor4, dirs: &[A2], f: impl Fn(&A2, &A2) -> H, tol: f64) -> Outcome {
    let d = std4(d2);
    for (k, p) in dirs.iter().enumerate() {
        let row = ddot24(p, &d);
        for (l, q) in dirs.iter().enumerate() {
            let want = f(p, q).c;
            let got = ddot2(&row, q);
            ensure!((got - want).abs() <= tol, "{name} along {k},{l} is {got} instead of {want}");
        }
    }
    Ok(())
}

struct Aux {
    jj3: AuxDeriv2InvariantJ3,
    sig: AuxDeriv2InvariantSigmaT,
    q: AuxDeriv2InvariantSigmaT,
    lode: AuxDeriv2InvariantLode,
}

impl Aux {
    fn new() -> Aux {
        Aux {
            jj3: AuxDeriv2InvariantJ3::new(),
            sig: AuxDeriv2InvariantSigmaT::new(),
            q: AuxDeriv2InvariantSigmaT::new(),
            lode: AuxDeriv2InvariantLode::new(),
        }
    }
}

fn derivs(a: &A2, rep: Rep, s: f64, loops: bool, aux: &mut Aux, tol: f64) -> Outcome {
    let t = t2(a, rep)?;
    let z = zero2();
    let own = basis(rep);
    let dirs = sym_dirs();
    let j2 = hj2(&lift(a, &z, &z)).v;
    let mut d1 = dirty2(rep, f64::NAN);
    let mut sx = dirty2(rep, f64::NAN);
    let sq3 = 3f64.sqrt();
    let one = |x: f64| if x == 0.0 { s } else { x };
    // norm
    let norm = ddot2(a, a).sqrt();
    match deriv1_norm(&mut d1, &t) {
        None => ensure!(norm == 0.0, "derivative of the norm {norm} refused"),
        Some(n) => {
            ensure!(norm > 0.0 && (n - norm).abs() <= tol * s, "norm returned {n}");
            d1_ok("d norm", &d1, &own, |p| hsq(&lift(a, p, &z)).pow(0.5), tol)?;
        }
    }
    let mut d1 = dirty2(rep, f64::NAN);
    deriv1_invariant_sigma_s(&mut d1, &t);
    d1_ok("d sigma_s", &d1, &own, |p| H::new(0.0, tr2(p) / sq3, 0.0), tol)?;
    let mut d1 = dirty2(rep, f64::NAN);
    deriv1_invariant_p(&mut d1, &t);
    d1_ok("d p", &d1, &own, |p| H::new(0.0, tr2(p) / 3.0, 0.0), tol)?;
    if rep == Rep::General {
        for k in 0..5 {
            let (mut x, mut y) = (Tensor2::new(rep), Tensor2::new(rep));
            let r = guarded(|| match k {
                0 => deriv1_invariant_jj2(&mut x, &t),
                1 => deriv1_invariant_jj3(&mut x, &mut y, &t),
                2 => drop(deriv1_invariant_sigma_t(&mut x, &t)),
                3 => drop(deriv1_invariant_q(&mut x, &t)),
                _ => drop(deriv1_invariant_lode(&mut x, &mut y, &t)),
            });
            ensure!(r.is_err(), "general tensor accepted by derivative {k}");
        }
    } else {
        // first derivatives
        let mut d1 = dirty2(rep, f64::NAN);
        deriv1_invariant_jj2(&mut d1, &t);
        d1_ok("d J2", &d1, &own, |p| hj2(&lift(a, p, &z)), tol * s)?;
        let mut d1 = dirty2(rep, f64::NAN);
        deriv1_invariant_jj3(&mut d1, &mut sx, &t);
        d1_ok("d J3", &d1, &own, |p| hj3(&lift(a, p, &z)), tol * s * s)?;
        let sure = (j2 - TOL_J2).abs() > 1e-6 * TOL_J2 + 1e-12 * s * s;
        let expect = j2 > TOL_J2;
        let some = |name: &str, r: Option<f64>| -> Result<bool, String> {
            if sure {
                ensure!(r.is_some() == expect, "{name} returned {r:?} with J2 = {j2}");
            }
            if let Some(v) = r {
                ensure!((v - j2).abs() <= tol * one(s * s), "{name} returned {v} instead of {j2}");
            }
            Ok(r.is_some())
        };
        // condition of the functions of J2: relative size of the deviator
        let k = s / j2.sqrt().max(1e-300);
        let mut d1 = dirty2(rep, f64::NAN);
        if some("d sigma_t", deriv1_invariant_sigma_t(&mut d1, &t))? {
            let f = |p: &A2, q: &A2| (H::k(2.0) * hj2(&lift(a, p, q))).pow(0.5);
            d1_ok("d sigma_t", &d1, &own, |p| f(p, &z), tol * k * k)?;
            let mut d2 = dirty4(Rep::Symmetric, f64::NAN);
            d2.use_loops = loops;
            ensure!(some("d2 sigma_t", deriv2_invariant_sigma_t(&mut d2, &mut aux.sig, &t))?, "d2 sigma_t refused");
            d2_ok("d2 sigma_t", &d2, &dirs, f, tol * k.powi(3) / s)?;
        } else {
            let mut d2 = dirty4(Rep::Symmetric, f64::NAN);
            d2.use_loops = loops;
            ensure!(deriv2_invariant_sigma_t(&mut d2, &mut aux.sig, &t).is_none(), "d2 sigma_t answered with J2 = {j2}");
        }
        let mut d1 = dirty2(rep, f64::NAN);
        if some("d q", deriv1_invariant_q(&mut d1, &t))? {
            let f = |p: &A2, q: &A2| (H::k(3.0) * hj2(&lift(a, p, q))).pow(0.5);
            d1_ok("d q", &d1, &own, |p| f(p, &z), tol * k * k)?;
            let mut d2 = dirty4(Rep::Symmetric, f64::NAN);
            d2.use_loops = loops;
            ensure!(some("d2 q", deriv2_invariant_q(&mut d2, &mut aux.q, &t))?, "d2 q refused");
            d2_ok("d2 q", &d2, &dirs, f, tol * k.powi(3) / s)?;
        } else {
            let mut d2 = dirty4(Rep::Symmetric, f64::NAN);
            d2.use_loops = loops;
            ensure!(deriv2_invariant_q(&mut d2, &mut aux.q, &t).is_none(), "d2 q answered with J2 = {j2}");
        }
        let mut d1 = dirty2(rep, f64::NAN);
        if some("d lode", deriv1_invariant_lode(&mut d1, &mut sx, &t))? {
            let f = |p: &A2, q: &A2| hlode(&lift(a, p, q));
            d1_ok("d lode", &d1, &own, |p| f(p, &z), 10.0 * tol * k.powi(4) / s)?;
            let mut d2 = dirty4(Rep::Symmetric, f64::NAN);
            d2.use_loops = loops;
            ensure!(some("d2 lode", deriv2_invariant_lode(&mut d2, &mut aux.lode, &t))?, "d2 lode refused");
            d2_ok("d2 lode", &d2, &dirs, f, 100.0 * tol * k.powi(5) / (s * s))?;
        } else {
            let mut d2 = dirty4(Rep::Symmetric, f64::NAN);
            d2.use_loops = loops;
            ensure!(deriv2_invariant_lode(&mut d2, &mut aux.lode, &t).is_none(), "d2 lode answered with J2 = {j2}");
        }
        // second derivatives of the polynomials
        let mut d2 = dirty4(Rep::Symmetric, f64::NAN);
        deriv2_invariant_jj2(&mut d2, &t);
        d2_ok("d2 J2", &d2, &dirs, |p, q| hj2(&lift(a, p, q)), tol)?;
        let mut d2 = dirty4(Rep::Symmetric, 777.0);
        d2.use_loops = loops;
        deriv2_invariant_jj3(&mut d2, &mut aux.jj3, &t);
        d2_ok("d2 J3", &d2, &dirs, |p, q| hj3(&lift(a, p, q)), tol * s)?;
    }
    // tensor-valued functions
    let gen = basis(Rep::General);
    let det = det2(a);
    let mut ai = Tensor2::new(rep);
    if t.inverse(&mut ai, 1e-10 * s.powi(3)).is_some() {
        let kk = s.powi(3) / det.abs();
        let mut d = dirty4(Rep::General, f64::NAN);
        d.use_loops = loops;
        deriv_inverse_tensor(&mut d, &ai);
        let dd = std4(&d);
        for p in &gen {
            let r = hinv(&lift(a, p, &z));
            let got = ddot42(&dd, p);
            for i in 0..3 {
                for j in 0..3 {
                    let e = tol * 100.0 * kk * kk / (s * s);
                    ensure!((got[i][j] - r[i][j].a).abs() <= e, "d inverse {i}{j} is {} not {}", got[i][j], r[i][j].a);
                }
            }
        }
        if rep != Rep::General {
            let mut d = dirty4(Rep::Symmetric, f64::NAN);
            d.use_loops = loops;
            deriv_inverse_tensor_sym(&mut d, &ai);
            let dd = std4(&d);
            for p in &dirs {
                let r = hinv(&lift(a, p, &z));
                let got = ddot42(&dd, p);
                for i in 0..3 {
                    for j in 0..3 {
                        let e = tol * 100.0 * kk * kk / (s * s);
                        ensure!((got[i][j] - r[i][j].a).abs() <= e, "d inverse (sym) {i}{j} is {}", got[i][j]);
                    }
                }
            }
        }
    }
    let mut ii = dirty2(rep, f64::NAN);
    let mut d = dirty4(Rep::General, f64::NAN);
    d.use_loops = loops;
    deriv_squared_tensor(&mut d, &mut ii, &t);
    let dd = std4(&d);
    for p in &gen {
        let want = axpy2(&mul2(a, p), 1.0, &mul2(p, a));
        let got = ddot42(&dd, p);
        same2(&scale2(1.0 / s, &got), &scale2(1.0 / s, &want), tol).map_err(|e| format!("d square: {e}"))?;
    }
    if rep != Rep::General {
        let mut d = dirty4(Rep::Symmetric, f64::NAN);
        d.use_loops = loops;
        let mut ii = dirty2(rep, f64::NAN);
        deriv_squared_tensor_sym(&mut d, &mut ii, &t);
        let dd = std4(&d);
        for p in &dirs {
            let want = axpy2(&mul2(a, p), 1.0, &mul2(p, a));
            let got = ddot42(&dd, p);
            same2(&scale2(1.0 / s, &got), &scale2(1.0 / s, &want), tol).map_err(|e| format!("d square (sym): {e}"))?;
        }
    }
    same2(&std2(&t), a, 1e-14)
}

fn derivatives(run: &mut Run) {
    for rep in REPS {
        let (nd, base) = count(rep, run);
        let total = pow(base, nd);
        let chunk = 64.min(total);
        run.section(&format!("derivatives {rep:?}"), total.div_ceil(chunk), |ctx, w| {
            // the auxiliary structures are shared by all tensors of the chunk
            let mut aux = Aux::new();
            for idx in w * chunk..total.min((w + 1) * chunk) {
                let d = digits(idx, base, nd);
                let a0 = build(rep, &d, base);
                for s in [1.0, 1e-2, 1e3] {
                    for loops in [false, true] {
                        ctx.case(format!("{rep:?} {d:?} x {s} loops={loops}"), |t| {
                            t.op();
                            t.state(&(rep.dim(), idx, hash_f64(&[s]), loops));
                            derivs(&scale2(s, &a0), rep, s * (base / 2) as f64, loops, &mut aux, 1e-12)
                        });
                    }
                }
            }
        });
    }
    run.section("derivative representations", 27, |ctx, w| {
        let (r, s, u) = (REPS[w % 3], REPS[w / 3 % 3], REPS[w / 9]);
        ctx.case(format!("{r:?} {s:?} {u:?}"), |t| {
            let x = t2(&dense(s)[0], s)?;
            let sym = s != Rep::General;
            let aux = || Aux::new();
            let mut n = 0;
            let mut expect = |name: &str, r: Result<(), String>, want: bool| -> Outcome {
                n += 1;
                ensure!(r.is_ok() == want, "{name} accepted: {} expected: {want}", r.is_ok());
                Ok(())
            };
            let (mut d1, mut a1) = (Tensor2::new(r), Tensor2::new(u));
            let mut d2 = Tensor4::new(r);
            expect("d norm", guarded(|| drop(deriv1_norm(&mut d1, &x))), r == s)?;
            expect("d sigma_s", guarded(|| deriv1_invariant_sigma_s(&mut d1, &x)), r == s)?;
            expect("d p", guarded(|| deriv1_invariant_p(&mut d1, &x)), r == s)?;
            expect("d J2", guarded(|| deriv1_invariant_jj2(&mut d1, &x)), sym && r == s)?;
            expect("d J3", guarded(|| deriv1_invariant_jj3(&mut d1, &mut a1, &x)), sym && r == s && u == s)?;
            expect("d sigma_t", guarded(|| drop(deriv1_invariant_sigma_t(&mut d1, &x))), sym && r == s)?;
            expect("d q", guarded(|| drop(deriv1_invariant_q(&mut d1, &x))), sym && r == s)?;
            expect(
                "d lode",
                guarded(|| drop(deriv1_invariant_lode(&mut d1, &mut a1, &x))),
                sym && r == s && u == s,
            )?;
            let full = r == Rep::Symmetric && sym;
            expect("d2 J2", guarded(|| deriv2_invariant_jj2(&mut d2, &x)), full)?;
            expect("d2 J3", guarded(|| deriv2_invariant_jj3(&mut d2, &mut aux().jj3, &x)), full)?;
            expect("d2 sigma_t", guarded(|| drop(deriv2_invariant_sigma_t(&mut d2, &mut aux().sig, &x))), full)?;
            expect("d2 q", guarded(|| drop(deriv2_invariant_q(&mut d2, &mut aux().q, &x))), full)?;
            expect("d2 lode", guarded(|| drop(deriv2_invariant_lode(&mut d2, &mut aux().lode, &x))), full)?;
            expect("d inverse", guarded(|| deriv_inverse_tensor(&mut d2, &x)), r == Rep::General)?;
            expect("d inverse (sym)", guarded(|| deriv_inverse_tensor_sym(&mut d2, &x)), full)?;
            expect("d square", guarded(|| deriv_squared_tensor(&mut d2, &mut a1, &x)), r == Rep::General && u == s)?;
            expect("d square (sym)", guarded(|| deriv_squared_tensor_sym(&mut d2, &mut a1, &x)), full && u == s)?;
            t.ops(n);
            t.state(&w);
            Ok(())
        });
    });
}

fn spectral_one(sp: &mut Spectral2, a: &A2, rep: Rep) -> Outcome {
    let s = f64::max(max2(a), 1e-100);
    let t = t2(a, rep)?;
    sp.decompose(&t)?;
    same2(&std2(&t), a, 1e-14)?;
    let l: Vec<f64> = (0..3).map(|i| sp.lambda[i]).collect();
    let pr: Vec<A2> = sp.projectors.iter().map(std2).collect();
    ensure!(pr.len() == 3, "number of projectors {}", pr.len());
    let tol = 1e-12;
    let mut sum = zero2();
    let mut rec = zero2();
    for i in 0..3 {
        ensure!(sp.projectors[i].rep() == rep, "projector has {:?}", sp.projectors[i].rep());
        sum = axpy2(&sum, 1.0, &pr[i]);
        rec = axpy2(&rec, l[i] / s, &pr[i]);
        ensure!((tr2(&pr[i]) - 1.0).abs() < tol, "projector {i} has trace {}", tr2(&pr[i]));
        let ap = mul2(a, &pr[i]);
        same2(&scale2(1.0 / s, &ap), &scale2(l[i] / s, &pr[i]), tol).map_err(|e| format!("eigenpair {i}: {e}"))?;
        for j in 0..3 {
            let want = if i == j { pr[i] } else { zero2() };
            same2(&mul2(&pr[i], &pr[j]), &want, tol).map_err(|e| format!("projectors {i} {j}: {e}"))?;
        }
    }
    let id = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]];
    same2(&sum, &id, tol).map_err(|e| format!("sum of projectors: {e}"))?;
    same2(&rec, &scale2(1.0 / s, a), tol).map_err(|e| format!("recomposition: {e}"))?;
    let mut c = dirty2(rep, f64::NAN);
    sp.compose(&mut c, &sp.lambda)?;
    same2(&scale2(1.0 / s, &std2(&c)), &scale2(1.0 / s, a), tol).map_err(|e| format!("compose: {e}"))?;
    // a function of the tensor: the square
    let sq = Vector::from(&[l[0] * l[0], l[1] * l[1], l[2] * l[2]]);
    sp.compose(&mut c, &sq)?;
    same2(&scale2(1.0 / (s * s), &std2(&c)), &scale2(1.0 / (s * s), &mul2(a, a)), 10.0 * tol)
        .map_err(|e| format!("compose squares: {e}"))?;
    // octahedral coordinates of the principal values
    let (o1, o2, o3) = sp.octahedral_basis();
    let r = ddot2(a, a) - tr2(a) * tr2(a) / 3.0;
    ensure!((o2 - tr2(a) / 3f64.sqrt()).abs() <= tol * s, "octahedral basis 2 is {o2}");
    ensure!((o1 * o1 + o3 * o3 - r).abs() <= 10.0 * tol * s * s, "octahedral radius");
    ensure!((o1 - (2.0 * l[0] - l[1] - l[2]) / 6f64.sqrt()).abs() <= tol * s, "octahedral basis 1 is {o1}");
    ensure!((o3 - (l[2] - l[1]) / 2f64.sqrt()).abs() <= tol * s, "octahedral basis 3 is {o3}");
    Ok(())
}

fn spectral(run: &mut Run) {
    for rep in [Rep::Symmetric, Rep::Symmetric2D] {
        let (nd, base) = count(rep, run);
        let total = pow(base, nd);
        let chunk = 32.min(total);
        run.section(&format!("spectral {rep:?}"), total.div_ceil(chunk), |ctx, w| {
            for idx in w * chunk..total.min((w + 1) * chunk) {
                let d = digits(idx, base, nd);
                let a = build(rep, &d, base);
                for s in [1.0, 1e-6, 1e5, 0.1, 1e-15, 1e-30, 1e30] {
                    ctx.case(format!("{rep:?} {d:?} x {s}"), |t| {
                        // one object for this tensor, a different one, and this one again
                        let mut sp = Spectral2::new(rep.two_dim());
                        let x = scale2(s, &a);
                        spectral_one(&mut sp, &x, rep)?;
                        let first: Vec<f64> = (0..3).map(|i| sp.lambda[i]).collect();
                        spectral_one(&mut sp, &dense(rep)[idx % 3], rep)?;
                        spectral_one(&mut sp, &x, rep)?;
                        t.ops(3);
                        let again: Vec<f64> = (0..3).map(|i| sp.lambda[i]).collect();
                        ensure!(first == again, "second decomposition gives {again:?} instead of {first:?}");
                        t.state(&(rep.dim(), idx, hash_f64(&[s])));
                        Ok(())
                    });
                }
            }
        });
    }
    run.section("spectral refusals", 9, |ctx, w| {
        let (two, r) = (w % 3, REPS[w / 3]);
        if two > 1 {
            return;
        }
        ctx.case(format!("two_dim={two} {r:?}"), |t| {
            t.op();
            let mut sp = Spectral2::new(two == 1);
            let mine = if two == 1 { Rep::Symmetric2D } else { Rep::Symmetric };
            ensure!(sp.decompose(&t2(&dense(r)[0], r)?).is_ok() == (r == mine), "decompose {r:?}");
            sp.decompose(&t2(&dense(mine)[0], mine)?)?;
            let mut c = Tensor2::new(r);
            ensure!(sp.compose(&mut c, &Vector::new(3)).is_ok() == (r == mine), "compose {r:?}");
            for n in [0, 1, 2, 4] {
                let mut c = Tensor2::new(mine);
                ensure!(sp.compose(&mut c, &Vector::new(n)).is_err(), "compose with {n} values");
            }
            t.state(&w);
            Ok(())
        });
    });
}

fn octahedral(run: &mut Run) {
    let n = run.pick(33, 129);
    run.section("octahedral", n, |ctx, w| {
        for (di, d) in [-3.0, 0.0, 0.5, 1e4].iter().enumerate() {
            for (ri, r) in [0.0, 1e-3, 1.0, 70.0].iter().enumerate() {
                for two in [false, true] {
                    ctx.case(format!("point {w} d={d} r={r} two_dim={two}"), |t| {
                        t.ops(2);
                        let s = f64::max(f64::abs(*d), *r).max(1e-3);
                        let lode = -1.0 + 2.0 * w as f64 / (n - 1) as f64;
                        let pi = std::f64::consts::PI;
                        let alpha = (-1.0 + 2.0 * w as f64 / (n - 1) as f64) * pi;
                        let check = |x: &Tensor2, lode: f64| -> Outcome {
                            let (dd, rr, ll) = x.invariants_octahedral();
                            ensure!((dd - d).abs() <= 1e-12 * s, "distance {dd} instead of {d}");
                            ensure!((rr - r).abs() <= 1e-11 * s, "radius {rr} instead of {r}");
                            if *r >= 1.0 && *d < 100.0 {
                                let l = ll.ok_or("no Lode invariant")?;
                                ensure!((l - lode).abs() <= 1e-10, "Lode {l} instead of {lode}");
                            }
                            ensure!(x.rep().two_dim() == two, "representation");
                            Ok(())
                        };
                        check(&Tensor2::new_from_octahedral(*d, *r, lode, two)?, lode)?;
                        let x = Tensor2::new_from_octahedral_alpha(*d, *r, alpha, two)?;
                        check(&x, -(3.0 * alpha).sin())?;
                        // coordinates on the octahedral plane
                        let mut sp = Spectral2::new(two);
                        sp.lambda = Vector::from(&[x.get(0), x.get(1), x.get(2)]);
                        let (o1, o2, o3) = sp.octahedral_basis();
                        ensure!((o1 - r * alpha.sin()).abs() <= 1e-12 * s, "first coordinate {o1}");
                        ensure!((o2 - d).abs() <= 1e-12 * s, "second coordinate {o2}");
                        ensure!((o3 - r * alpha.cos()).abs() <= 1e-12 * s, "third coordinate {o3}");
                        // out of range
                        for bad in [1.0 + 1e-9 + w as f64, -1.0 - 1e-9 - w as f64] {
                            ensure!(Tensor2::new_from_octahedral(*d, *r, bad, two).is_err(), "Lode {bad} accepted");
                            let a = bad * pi;
                            ensure!(Tensor2::new_from_octahedral_alpha(*d, *r, a, two).is_err(), "angle {a} accepted");
                        }
                        t.state(&(w, di, ri, two));
                        Ok(())
                    });
                }
            }
        }
    });
}

/// Inverse of fourth-order tensors
fn inverse4(run: &mut Run) {
    run.section("fourth-order inverse", 3 * 3 * 81, |ctx, w| {
        let rep = REPS[w % 3];
        let kind = w / 3 % 3;
        let p = w / 9;
        let n = rep.dim();
        if p >= n * n {
            return;
        }
        for q in 0..n * n {
            ctx.case(format!("{rep:?} kind {kind} {p} {q}"), |t| {
                t.op();
                // Kelvin matrices: scaled identity or permutation plus two disturbed entries; singular ones too
                let mut x = Tensor4::new(rep);
                for m in 0..n {
                    let c = if kind == 1 { (m + 1) % n } else { m };
                    x.set(m, c, if kind == 2 && m == p % n { 0.0 } else { 2.0 + m as f64 });
                }
                x.set(p / n, p % n, x.get(p / n, p % n) + 3.0);
                x.set(q / n, q % n, x.get(q / n, q % n) - 0.5);
                let mut inv = dirty4(rep, 777.0);
                let r = x.calc_inverse(&mut inv);
                let mut m = vec![vec![0.0; n]; n];
                for i in 0..n {
                    for j in 0..n {
                        m[i][j] = x.get(i, j);
                    }
                }
                // determinant by elimination
                let mut det = 1.0;
                for c in 0..n {
                    let piv = (c..n).max_by(|a, b| m[*a][c].abs().total_cmp(&m[*b][c].abs())).unwrap();
                    if m[piv][c].abs() < 1e-12 {
                        det = 0.0;
                        break;
                    }
                    if piv != c {
                        m.swap(piv, c);
                        det = -det;
                    }
                    det *= m[c][c];
                    for i in c + 1..n {
                        let f = m[i][c] / m[c][c];
                        for j in c..n {
                            m[i][j] -= f * m[c][j];
                        }
                    }
                }
                if det == 0.0 {
                    ensure!(r.is_err(), "singular tensor inverted");
                } else {
                    let d = r?;
                    ensure!((d - det).abs() <= 1e-10 * det.abs(), "determinant {d} instead of {det}");
                    for i in 0..n {
                        for j in 0..n {
                            let s: f64 = (0..n).map(|k| x.get(i, k) * inv.get(k, j)).sum();
                            let want = if i == j { 1.0 } else { 0.0 };
                            ensure!((s - want).abs() <= 1e-10, "product with the inverse {i},{j} is {s}");
                        }
                    }
                }
                for other in REPS {
                    if other != rep {
                        ensure!(x.calc_inverse(&mut Tensor4::new(other)).is_err(), "inverse into {other:?}");
                    }
                }
                t.state(&(rep.dim(), kind, p, q));
                Ok(())
            });
        }
    });
}

/// The samples of second-order tensors agree with the definitions
fn samples(run: &mut Run) {
    use SamplesTensor2 as S;
    let all = [S::TENSOR_O, S::TENSOR_I, S::TENSOR_X, S::TENSOR_Y, S::TENSOR_Z, S::TENSOR_U, S::TENSOR_S, S::TENSOR_R, S::TENSOR_T];
    run.section("samples", all.len(), |ctx, w| {
        let s = &all[w];
        ctx.case(s.desc, |t| {
            t.ops(10);
            let a = s.matrix;
            t.state_f64(&a.concat());
            let trace = |a: &A2| a[0][0] + a[1][1] + a[2][2];
            let norm = |a: &A2| a.iter().flatten().map(|v| v * v).sum::<f64>().sqrt();
            let second = |a: &A2| a[0][0] * a[1][1] + a[1][1] * a[2][2] + a[2][2] * a[0][0] - a[0][1] * a[1][0] - a[1][2] * a[2][1] - a[2][0] * a[0][2];
            let det = |a: &A2| a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0]) + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0]);
            let mut dev = a;
            for i in 0..3 {
                dev[i][i] -= trace(&a) / 3.0;
            }
            let ok = |what: &str, got: f64, want: f64| -> Outcome {
                ensure!((got - want).abs() <= 1e-11 * (1.0 + want.abs()), "{what} is {got} instead of {want}");
                Ok(())
            };
            for i in 0..3 {
                for j in 0..3 {
                    ok("deviator", s.deviator[i][j], dev[i][j])?;
                }
            }
            ok("norm", s.norm, norm(&a))?;
            ok("trace", s.trace, trace(&a))?;
            ok("second invariant", s.second_invariant, second(&a))?;
            ok("determinant", s.determinant, det(&a))?;
            ok("norm of the deviator", s.deviator_norm, norm(&dev))?;
            ok("second invariant of the deviator", s.deviator_second_invariant, second(&dev))?;
            ok("determinant of the deviator", s.deviator_determinant, det(&dev))?;
            let symmetric = (0..3).all(|i| (0..3).all(|j| a[i][j] == a[j][i]));
            ensure!(s.eigenvalues.is_some() == symmetric && s.eigenprojectors.is_some() == symmetric, "eigenvalues of a symmetric tensor");
            if let (Some(l), Some(p)) = (s.eigenvalues, s.eigenprojectors) {
                let (mut sum, mut one) = (zero2(), zero2());
                for k in 0..3 {
                    sum = axpy2(&sum, l[k], &p[k]);
                    one = axpy2(&one, 1.0, &p[k]);
                }
                for i in 0..3 {
                    for j in 0..3 {
                        ok("sum of projections", sum[i][j], a[i][j])?;
                        ok("sum of projectors", one[i][j], (i == j) as usize as f64)?;
                        for k in 0..3 {
                            for m in 0..3 {
                                let v: f64 = (0..3).map(|q| p[k][i][q] * p[m][q][j]).sum();
                                ok("product of projectors", v, if k == m { p[k][i][j] } else { 0.0 })?;
                            }
                        }
                    }
                }
            }
            Ok(())
        });
    });
}

pub fn explore(run: &mut Run) {
    run.level(
        "exploration",
        "all small-integer tensors of each representation (scaled), all functions, all directions; derivatives against numbers carrying exact directional derivatives",
    );
    run.assume("rounding: tolerances relative to the largest component and to the condition of the function near J2 = 0");
    invariants(run);
    derivatives(run);
    spectral(run);
    octahedral(run);
    inverse4(run);
    samples(run);
}
