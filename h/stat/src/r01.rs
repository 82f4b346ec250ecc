//! R01: probability distributions

use mc::*;
use rand::rand_core::TryRng;
use russell_stat::*;
use std::convert::Infallible;
use std::f64::consts::PI;

/// A generator whose first output is given; the following ones are scrambled from it
struct Given {
    first: u64,
    n: u64,
}

impl Given {
    fn next(&mut self) -> u64 {
        self.n += 1;
        if self.n == 1 {
            return self.first;
        }
        let mut z = self.first.wrapping_add(self.n.wrapping_mul(0x9E3779B97F4A7C15));
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}

impl TryRng for Given {
    type Error = Infallible;
    fn try_next_u32(&mut self) -> Result<u32, Infallible> {
        Ok((self.next() >> 32) as u32)
    }
    fn try_next_u64(&mut self) -> Result<u64, Infallible> {
        Ok(self.next())
    }
    fn try_fill_bytes(&mut self, dst: &mut [u8]) -> Result<(), Infallible> {
        for b in dst {
            *b = (self.next() >> 56) as u8;
        }
        Ok(())
    }
}

enum Any {
    Normal(DistributionNormal),
    Lognormal(DistributionLognormal),
    Gumbel(DistributionGumbel),
    Frechet(DistributionFrechet),
    Uniform(DistributionUniform),
}

macro_rules! each {
    ($s:expr, $d:ident, $e:expr) => {
        match $s {
            Any::Normal($d) => $e,
            Any::Lognormal($d) => $e,
            Any::Gumbel($d) => $e,
            Any::Frechet($d) => $e,
            Any::Uniform($d) => $e,
        }
    };
}

impl Any {
    fn pdf(&self, x: f64) -> f64 {
        each!(self, d, d.pdf(x))
    }
    fn cdf(&self, x: f64) -> f64 {
        each!(self, d, d.cdf(x))
    }
    fn mean(&self) -> f64 {
        each!(self, d, d.mean())
    }
    fn variance(&self) -> f64 {
        each!(self, d, d.variance())
    }
    fn sample(&self, r: &mut Given) -> f64 {
        each!(self, d, d.sample(r))
    }
}

/// The kind of distribution with its parameters
#[derive(Clone, Copy, Debug)]
enum Kind {
    Normal(f64, f64),
    Lognormal(f64, f64),
    LognormalMuSig(f64, f64),
    Gumbel(f64, f64),
    GumbelMuSig(f64, f64),
    Frechet(f64, f64, f64),
    Uniform(f64, f64),
}

use Kind::*;

const EULER: f64 = 0.57721566490153286060651209008240243104215933593992;

impl Kind {
    fn make(self) -> Result<Any, &'static str> {
        Ok(match self {
            Normal(a, b) => Any::Normal(DistributionNormal::new(a, b)?),
            Lognormal(a, b) => Any::Lognormal(DistributionLognormal::new(a, b)?),
            LognormalMuSig(a, b) => Any::Lognormal(DistributionLognormal::new_from_mu_sig(a, b)?),
            Gumbel(a, b) => Any::Gumbel(DistributionGumbel::new(a, b)?),
            GumbelMuSig(a, b) => Any::Gumbel(DistributionGumbel::new_from_mu_sig(a, b)?),
            Frechet(a, b, c) => Any::Frechet(DistributionFrechet::new(a, b, c)?),
            Uniform(a, b) => Any::Uniform(DistributionUniform::new(a, b)?),
        })
    }

    /// The same distribution by its basic parameters
    fn basic(self) -> Kind {
        match self {
            LognormalMuSig(mu, sig) => {
                let v = ((sig / mu) * (sig / mu)).ln_1p();
                Lognormal(mu.ln() - v / 2.0, v.sqrt())
            }
            GumbelMuSig(mu, sig) => {
                let s = sig * 6f64.sqrt() / PI;
                Gumbel(mu - EULER * s, s)
            }
            k => k,
        }
    }

    /// Argument for the parameter y: the axis on which the density is smooth
    fn x(self, y: f64) -> f64 {
        match self.basic() {
            Normal(m, s) => m + s * y,
            Lognormal(m, s) => (m + s * y).exp(),
            Gumbel(m, s) => m + s * y,
            Frechet(m, s, a) => m + s * (y / a).exp(),
            Uniform(a, b) => {
                if y == 1.0 {
                    b
                } else {
                    a + (b - a) * y
                }
            }
            _ => unreachable!(),
        }
    }

    fn dx(self, y: f64) -> f64 {
        match self.basic() {
            Normal(_, s) => s,
            Lognormal(m, s) => s * (m + s * y).exp(),
            Gumbel(_, s) => s,
            Frechet(_, s, a) => s / a * (y / a).exp(),
            Uniform(a, b) => b - a,
            _ => unreachable!(),
        }
    }

    /// Density times dx/dy: the density of y; and the cdf if it has an elementary form
    fn density(self, y: f64) -> f64 {
        match self.basic() {
            Normal(..) | Lognormal(..) => (-0.5 * y * y).exp() / (2.0 * PI).sqrt(),
            Gumbel(..) | Frechet(..) => (-y - (-y).exp()).exp(),
            Uniform(..) => 1.0,
            _ => unreachable!(),
        }
    }

    /// y of an argument
    fn y(self, x: f64) -> f64 {
        match self.basic() {
            Normal(m, s) | Gumbel(m, s) => (x - m) / s,
            Lognormal(m, s) => (x.ln() - m) / s,
            Frechet(m, s, a) => ((x - m) / s).ln() * a,
            Uniform(a, b) => (x - a) / (b - a),
            _ => unreachable!(),
        }
    }

    /// Range of y holding the distribution and its second moment, and the number of cells
    fn range(self) -> (f64, f64, usize) {
        match self.basic() {
            Normal(..) => (-13.0, 13.0, 104),
            Lognormal(_, s) => {
                let (a, b) = (-13.0, 13.0 + 2.0 * s);
                (a, b, ((b - a) * 4.0 * f64::max(1.0, s)) as usize)
            }
            Gumbel(..) => (-7.0, 60.0, 268),
            Frechet(_, _, a) => {
                let hi = if a > 2.0 {
                    45.0 * a / (a - 2.0)
                } else if a > 1.0 {
                    45.0 * a / (a - 1.0)
                } else {
                    45.0
                };
                (-7.0, hi, ((hi + 7.0) * 4.0) as usize)
            }
            Uniform(..) => (0.0, 1.0, 16),
            _ => unreachable!(),
        }
    }

    /// Loss of precision of x - location
    fn noise(self) -> f64 {
        let r = match self.basic() {
            Normal(m, s) | Gumbel(m, s) | Frechet(m, s, _) => m.abs() / s,
            Lognormal(m, s) => f64::max(1.0, m.abs()) / s,
            Uniform(a, b) => f64::max(a.abs(), b.abs()) / (b - a),
            _ => unreachable!(),
        };
        let shape = if let Frechet(_, _, a) = self { f64::max(1.0, a) } else { 1.0 };
        4e-16 * (1.0 + r) * shape
    }

    fn support(self) -> (f64, f64) {
        match self {
            Lognormal(..) | LognormalMuSig(..) => (0.0, f64::INFINITY),
            Frechet(m, _, _) => (m, f64::INFINITY),
            Uniform(a, b) => (a, b),
            _ => (f64::NEG_INFINITY, f64::INFINITY),
        }
    }

    /// Standard deviation (or a measure of the spread)
    fn exists(self) -> bool {
        let fin = |x: f64| x.is_finite();
        let pos = |x: f64| x.is_finite() && x > 0.0;
        match self {
            Normal(a, b) | Lognormal(a, b) | Gumbel(a, b) | GumbelMuSig(a, b) => fin(a) && pos(b),
            LognormalMuSig(a, b) => pos(a) && pos(b),
            Frechet(a, b, c) => fin(a) && pos(b) && pos(c),
            Uniform(a, b) => fin(a) && fin(b) && a < b,
        }
    }
}

/// Gauss-Legendre rule with ten points
const GX: [f64; 5] = [0.14887433898163122, 0.43339539412924719, 0.67940956829902441, 0.86506336668898451, 0.97390652851717172];
const GW: [f64; 5] = [0.29552422471475287, 0.26926671930999636, 0.21908636251598204, 0.14945134915058059, 0.06667134430868814];

fn quad(a: f64, b: f64, f: impl Fn(f64) -> f64) -> f64 {
    let (m, h) = (0.5 * (a + b), 0.5 * (b - a));
    let mut s = 0.0;
    for i in 0..5 {
        s += GW[i] * (f(m - h * GX[i]) + f(m + h * GX[i]));
    }
    s * h
}

fn kinds() -> Vec<Kind> {
    let mut v = Vec::new();
    for m in [0.0, 1.0, -3.5, 250.0, -1e-3] {
        for s in [1e-3, 0.25, 1.0, 3.0, 1e4] {
            v.push(Normal(m, s));
            v.push(Gumbel(m, s));
            v.push(GumbelMuSig(m, s));
            for a in [0.5, 1.0, 1.5, 2.0, 2.5, 3.0, 8.0, 40.0] {
                v.push(Frechet(m, s, a));
            }
        }
        for w in [1e-3, 1.0, 8.0, 1e5] {
            v.push(Uniform(m, m + w));
        }
        v.push(Uniform(-m.abs() - 1.0, m.abs()));
    }
    for m in [0.0, 1.0, -2.5, 5.0, -40.0, 60.0] {
        for s in [1e-9, 1e-4, 0.1, 0.5, 1.0, 2.0] {
            v.push(Lognormal(m, s));
        }
    }
    for m in [1e-20, 0.2, 1.0, 30.0, 1e9] {
        for r in [1e-9, 1e-3, 0.3, 1.0, 4.0] {
            v.push(LognormalMuSig(m, m * r));
        }
    }
    // very small and very large scales
    for s in [1e-100, 1e-17, 1e17, 1e100] {
        v.extend([Normal(0.0, s), Gumbel(0.0, s), GumbelMuSig(0.0, s), Uniform(0.0, s), Uniform(-s, s)]);
        for a in [0.5, 2.5, 8.0] {
            v.push(Frechet(0.0, s, a));
        }
    }
    v
}

fn check(k: Kind, t: &mut Trace) -> Outcome {
    let d = k.make()?;
    let (lo, hi, n) = k.range();
    let noise = k.noise();
    let (slo, shi) = k.support();
    // values on the lattice
    let mut last = 0.0;
    let mut mass = 0.0;
    let mut first_moment = 0.0;
    let mean = d.mean();
    let var = d.variance();
    let (x0, _, _) = (k.x(0.0), 0, 0);
    let spread = (k.x(1.0) - k.x(-1.0)).abs();
    for i in 0..=n {
        let y = lo + (hi - lo) * i as f64 / n as f64;
        let x = k.x(y);
        t.op();
        let p = d.pdf(x);
        let c = d.cdf(x);
        ensure!(p >= 0.0 && p.is_finite(), "pdf({x}) = {p}");
        ensure!((0.0..=1.0).contains(&c), "cdf({x}) = {c}");
        ensure!(c >= last - 1e-15, "cdf decreases to {c} at {x}");
        // the density follows from the definition (y of the rounded argument)
        let inside = x > slo && (x < shi || matches!(k, Uniform(..)));
        if inside {
            let yy = k.y(x);
            let want = k.density(yy) / k.dx(yy);
            let amp = 1.0 + y * y + (-y).exp().min(1e3) + y.abs();
            let tol = (1e-14 + 2.0 * noise) * amp * (1.0 + amp);
            if want > 1e-250 / spread.max(1e-100) {
                ensure!((p - want).abs() <= tol * want, "pdf({x}) = {p} instead of {want}");
            } else {
                ensure!(p <= 1.001 * want.max(1e-240 / spread.max(1e-100)), "pdf({x}) = {p} instead of {want}");
            }
        }
        if i > 0 {
            let prev = lo + (hi - lo) * (i - 1) as f64 / n as f64;
            let f = |y: f64| d.pdf(k.x(y)) * k.dx(y);
            let part = quad(prev, y, f);
            mass += part;
            ensure!((c - last - part).abs() <= 1e-13 + noise, "integral of the pdf to {x} is {part}, cdf differs by {}", c - last);
            ensure!((c - mass).abs() <= 1e-12 + 10.0 * noise, "integral of the pdf up to {x} is {mass}, cdf is {c}");
            first_moment += quad(prev, y, |y| (k.x(y) - x0) / spread * f(y));
        } else {
            ensure!(c <= 1e-16 || matches!(k, Uniform(..)), "cdf({x}) = {c} at the lower end");
        }
        last = c;
    }
    ensure!((last - 1.0).abs() <= 1e-13, "cdf is {last} at the upper end");
    // moments
    let (has_mean, has_var) = if let Frechet(_, _, a) = k { (a > 1.0, a > 2.0) } else { (true, true) };
    if has_mean {
        let got = (mean - x0) / spread;
        let tol = (1e-12 + 10.0 * noise) * (1.0 + got.abs()) + 1e-12;
        ensure!((got - first_moment).abs() <= tol, "mean is {mean}, the first moment is {}", x0 + spread * first_moment);
    } else {
        ensure!(mean == f64::INFINITY, "mean is {mean}");
    }
    if has_var {
        let mut second = 0.0;
        for i in 1..=n {
            let a = lo + (hi - lo) * (i - 1) as f64 / n as f64;
            let b = lo + (hi - lo) * i as f64 / n as f64;
            second += quad(a, b, |y| {
                let e = (k.x(y) - mean) / spread;
                e * e * d.pdf(k.x(y)) * k.dx(y)
            });
        }
        let got = var / spread / spread;
        let tol = (1e-11 + 100.0 * noise) * (1.0 + second);
        ensure!((got - second).abs() <= tol, "variance is {var}, the second moment is {}", second * spread * spread);
    } else {
        ensure!(var == f64::INFINITY, "variance is {var}");
    }
    match k {
        LognormalMuSig(mu, sig) | GumbelMuSig(mu, sig) => {
            ensure!((mean - mu).abs() <= 1e-14 * (mu.abs() + sig), "mean {mean} instead of {mu}");
            ensure!(rel(var, sig * sig, 1e-12 + 4.0 * noise), "variance {var} instead of {}", sig * sig);
        }
        _ => {}
    }
    // ends of the support, outside, and far away
    let far = [slo, shi, f64::NEG_INFINITY, f64::INFINITY, -1e300, 1e300, -f64::MAX, f64::MAX, -1e10, 1e10, 0.0, -0.0, 1e-300, -1e-300];
    for x in far {
        t.op();
        let p = d.pdf(x);
        let c = d.cdf(x);
        ensure!(p >= 0.0 && (p.is_finite() || spread < 1e-90), "pdf({x}) = {p}");
        ensure!((0.0..=1.0).contains(&c), "cdf({x}) = {c}");
        if x < slo || x == f64::NEG_INFINITY {
            ensure!(p == 0.0 && c == 0.0, "pdf({x}) = {p} and cdf = {c} below the support");
        }
        if x > shi || x == f64::INFINITY {
            ensure!(p == 0.0 && c == 1.0, "pdf({x}) = {p} and cdf = {c} above the support");
        }
        if x == slo && x.is_finite() {
            ensure!(c == 0.0, "cdf({x}) = {c} at the lower end of the support");
        }
    }
    if slo.is_finite() {
        // just outside
        let x = slo.next_down();
        ensure!(d.pdf(x) == 0.0 && d.cdf(x) == 0.0, "probability just below the support");
    }
    if shi.is_finite() {
        let x = shi.next_up();
        ensure!(d.pdf(x) == 0.0 && d.cdf(x) == 1.0, "probability just above the support");
        ensure!(d.cdf(shi) == 1.0, "cdf at the end of the support");
    }
    Ok(())
}

fn samples(k: Kind, n: usize, t: &mut Trace) -> Outcome {
    let d = k.make()?;
    let (slo, shi) = k.support();
    let mut v = Vec::with_capacity(n);
    for i in 0..n {
        t.op();
        // an evenly spread set of generator outputs (in high and low bits)
        let first = (i as u64).wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(0x1234567);
        let x = d.sample(&mut Given { first, n: 0 });
        ensure!(x.is_finite(), "sample {x}");
        ensure!(x >= slo && x <= shi, "sample {x} outside the support");
        v.push(x);
    }
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    // largest distance between the two distribution functions
    let mut dist: f64 = 0.0;
    for (i, x) in v.iter().enumerate() {
        let c = d.cdf(*x);
        dist = dist.max((c - i as f64 / n as f64).abs()).max((c - (i + 1) as f64 / n as f64).abs());
    }
    ensure!(dist <= 0.03, "distance between samples and cdf is {dist}");
    // extreme outputs of the generator
    for first in [0, u64::MAX, 1, 1 << 63, (1 << 63) - 1, 0xFF, 0xFFF, u64::MAX << 12, u64::MAX << 11, 1 << 11, 1 << 12] {
        let x = d.sample(&mut Given { first, n: 0 });
        ensure!(!x.is_nan(), "sample {x} for the generator output {first}");
    }
    Ok(())
}

pub fn explore(run: &mut Run) {
    run.level(
        "exploration",
        "every distribution x lattice of parameters x lattice of arguments covering the support, its ends and the outside; \
         integrals and moments of the density by Gauss-Legendre rules on every lattice cell; samples for a lattice of generator outputs",
    );
    run.assume("quadrature with ten points per quarter standard deviation is exact to rounding for these densities");
    let ks = kinds();
    run.section("values and moments", ks.len(), |ctx, w| {
        let k = ks[w];
        ctx.case(format!("{k:?}"), |t| {
            t.state(&w);
            check(k, t)
        });
    });
    let n = run.pick(1 << 16, 1 << 20);
    run.section("samples", ks.len(), |ctx, w| {
        let k = ks[w];
        ctx.case(format!("{k:?}"), |t| {
            t.state(&w);
            samples(k, n, t)
        });
    });
    // all combinations of ordinary and impossible parameters
    let vals = [1.0, 2.0, 0.0, -0.0, -1.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e-300];
    let m = vals.len();
    run.section("refusals", 6 * m * m * m, |ctx, w| {
        let (a, b, c) = (vals[w % m], vals[w / m % m], vals[w / m / m % m]);
        let k = match w / m / m / m {
            0 => Normal(a, b),
            1 => Lognormal(a, b),
            2 => LognormalMuSig(a, b),
            3 => Gumbel(a, b),
            4 => GumbelMuSig(a, b),
            _ => Frechet(a, b, c),
        };
        if w / m / m / m < 5 && w / m / m % m > 0 {
            if w / m / m / m == 0 && w / m / m % m == 1 {
                ctx.case(format!("{:?}", Uniform(a, b)), |t| refusal(Uniform(a, b), t));
            }
            return;
        }
        ctx.case(format!("{k:?}"), |t| refusal(k, t));
    });
}

fn refusal(k: Kind, t: &mut Trace) -> Outcome {
    t.op();
    t.state(&hash_of(&format!("{k:?}")));
    let tiny = format!("{k:?}").contains("1e-300");
    match guarded(|| k.make().map(|_| ()))? {
        Ok(()) => ensure!(k.exists(), "accepted"),
        // extremely small parameters may be refused
        Err(_) => ensure!(!k.exists() || tiny, "refused"),
    }
    Ok(())
}
