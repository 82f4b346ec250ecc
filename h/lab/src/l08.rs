//! L08: special functions and polynomials against independent values

use mc::*;
use russell_lab::math::*;

extern "C" {
    #[link_name = "erf"]
    fn c_erf(x: f64) -> f64;
    #[link_name = "erfc"]
    fn c_erfc(x: f64) -> f64;
    #[link_name = "tgamma"]
    fn c_tgamma(x: f64) -> f64;
    #[link_name = "lgamma_r"]
    fn c_lgamma(x: f64, sign: *mut i32) -> f64;
    #[link_name = "jn"]
    fn c_jn(n: i32, x: f64) -> f64;
    #[link_name = "yn"]
    fn c_yn(n: i32, x: f64) -> f64;
    #[link_name = "frexp"]
    fn c_frexp(x: f64, e: *mut i32) -> f64;
    #[link_name = "ldexp"]
    fn c_ldexp(x: f64, e: i32) -> f64;
}

fn lgam(x: f64) -> (f64, i32) {
    let mut s = 1;
    let v = unsafe { c_lgamma(x, &mut s) };
    (v, if s < 0 { -1 } else { 1 })
}

fn same(a: f64, b: f64) -> bool {
    (a.is_nan() && b.is_nan()) || a == b
}

/// equal up to `tol` relative to `scale`, or both the same special value
fn agree(a: f64, b: f64, tol: f64, scale: f64) -> bool {
    if a.is_nan() || b.is_nan() || a.is_infinite() || b.is_infinite() {
        return same(a, b);
    }
    (a - b).abs() <= tol * scale.abs() + 4.0 * f64::MIN_POSITIVE
}

/// Lattice of arguments: fractions with neighbours, all binary exponents, special values
fn args(range: usize, denom: usize) -> Vec<f64> {
    let mut v = vec![0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MIN_POSITIVE, f64::MAX, f64::MIN, 5e-324, 1e-9, 1e-8, 1e-15];
    for i in 0..=(range * denom) {
        let x = i as f64 / denom as f64;
        v.push(x);
        v.push(-x);
        for y in [x.next_up(), x.next_down()] {
            v.push(y);
            v.push(-y);
        }
    }
    for e in -1074..1024 {
        for m in [1.0, 1.25, 1.5, 1.75] {
            let x = m * f64::powi(2.0, e / 2) * f64::powi(2.0, e - e / 2);
            v.push(x);
            v.push(-x);
        }
    }
    v
}

/// I_n(x) by its power series (all terms positive), x ≥ 0
fn ref_in(n: usize, x: f64) -> f64 {
    if x == 0.0 {
        return if n == 0 { 1.0 } else { 0.0 };
    }
    let q = x * x / 4.0;
    // sum scaled by the first term
    let (mut term, mut sum, mut k, mut shift) = (1.0f64, 1.0f64, 0.0f64, 0.0f64);
    loop {
        k += 1.0;
        term *= q / (k * (k + n as f64));
        sum += term;
        if sum > 1e200 {
            sum *= 1e-200;
            term *= 1e-200;
            shift += 200.0 * std::f64::consts::LN_10;
        }
        if term < sum * 1e-18 {
            break;
        }
    }
    if shift == 0.0 && n <= 25 {
        let mut first = 1.0;
        for i in 1..=n {
            first *= x / 2.0 / i as f64;
        }
        return first * sum;
    }
    f64::exp(n as f64 * (x / 2.0).ln() - lgam(n as f64 + 1.0).0 + sum.ln() + shift)
}

/// K_n(x) by the trapezoidal rule on its integral representation
fn ref_kn(n: i32, x: f64) -> f64 {
    let h = f64::min(0.125, 0.4 / x.max(n as f64).sqrt());
    let nf = n as f64;
    let mut sum = 0.5 * f64::exp(-x);
    let mut i = 1.0;
    loop {
        let t: f64 = i * h;
        let e = if t < 700.0 { -x * t.cosh() } else { -f64::exp(x.ln() + t - std::f64::consts::LN_2) };
        let v = 0.5 * (f64::exp(e + nf * t) + f64::exp(e - nf * t));
        sum += v;
        if v < 1e-20 * sum && x * t.sinh() > nf {
            break;
        }
        if t > 800.0 {
            break;
        }
        i += 1.0;
    }
    sum * h
}

/// Tanh-sinh quadrature on [0, b]
fn tanh_sinh(b: f64, f: impl Fn(f64) -> f64) -> f64 {
    let h = 1.0 / 32.0;
    let mut sum = 0.0;
    for i in -128i32..=128 {
        let t = i as f64 * h;
        let u = std::f64::consts::FRAC_PI_2 * t.sinh();
        let w = std::f64::consts::FRAC_PI_2 * t.cosh() / (u.cosh() * u.cosh());
        if w < 1e-300 {
            continue;
        }
        let x = b / (1.0 + f64::exp(-2.0 * u));
        if x <= 0.0 || x >= b {
            continue;
        }
        sum += w * f(x);
    }
    sum * h * b / 2.0
}

pub fn explore(run: &mut Run) {
    run.level(
        "exploration",
        "every special function on a lattice of arguments: all multiples of 1/64 (with the neighbouring floating-point numbers), all binary exponents, zeros, infinities and NaN; pairs and orders from small complete sets; compared with the C library, series, integrals, recurrences and functional equations",
    );
    run.assume("the C library's erf, gamma and Bessel functions, and this check's series and quadratures, are accurate");
    let den = run.pick(64, 512);
    let xs = args(40, den);
    let chunks = 64;
    // error functions and gamma
    run.section("erf and gamma", chunks, |ctx, w| {
        for x in xs.iter().skip(w).step_by(chunks).cloned() {
            ctx.case(format!("erf x={:?}", x), |t| {
                t.ops(6);
                let (a, b) = unsafe { (c_erf(x), c_erfc(x)) };
                ensure!(agree(erf(x), a, 5e-16, a), "erf({:?}) = {:?} instead of {:?}", x, erf(x), a);
                ensure!(same(erfc(x), b) || agree(erfc(x), b, 2e-15 * (1.0 + x.clamp(0.0, 30.0)), b), "erfc({:?}) = {:?} instead of {:?}", x, erfc(x), b);
                ensure!(same(erf(-x), -erf(x)), "erf is not odd at {:?}", x);
                t.state_f64(&[a, b]);
                Ok(())
            });
            ctx.case(format!("erf_inv x={:?}", x), |t| {
                t.ops(2);
                // x in (-1, 1): erf(erf_inv(x)) = x to within the conditioning
                let y = erf_inv(x);
                if x.is_nan() || x.abs() > 1.0 {
                    ensure!(y.is_nan(), "erf_inv({:?}) = {:?} instead of NaN", x, y);
                } else if x.abs() == 1.0 {
                    ensure!(y == x * f64::INFINITY, "erf_inv({:?}) = {:?}", x, y);
                } else {
                    ensure!(y.is_finite() && (y == 0.0) == (x == 0.0) && (x == 0.0 || (y > 0.0) == (x > 0.0)), "erf_inv({:?}) = {:?}", x, y);
                    let slope = 2.0 / std::f64::consts::PI.sqrt() * f64::exp(-y * y);
                    let dy = unsafe {
                        if x.abs() < 0.5 { (c_erf(y) - x) / slope } else if x > 0.0 { ((1.0 - x) - c_erfc(y)) / slope } else { (c_erfc(-y) - (1.0 + x)) / slope }
                    };
                    ensure!(dy.abs() <= 4e-15 * y.abs() + 1e-320, "erf_inv({:?}) = {:?} off by {:?}", x, y, dy);
                }
                let y = erfc_inv(x);
                if x.is_nan() || x < 0.0 || x > 2.0 {
                    ensure!(y.is_nan(), "erfc_inv({:?}) = {:?} instead of NaN", x, y);
                } else if x == 0.0 || x == 2.0 {
                    ensure!(y == (1.0 - x) * f64::INFINITY, "erfc_inv({:?}) = {:?}", x, y);
                } else {
                    let dy = unsafe {
                        let slope = 2.0 / std::f64::consts::PI.sqrt() * f64::exp(-y * y);
                        // relative residual: avoids underflow of both
                        if (x - 1.0).abs() < 0.5 { (1.0 - x - c_erf(y)) / slope } else if x < 1.0 { (c_erfc(y) - x) / x * (x / slope) } else { ((2.0 - x) - c_erfc(-y)) / slope }
                    };
                    let tiny = x < 1e-305; // residual not representable
                    ensure!(y.is_finite() && (tiny || dy.abs() <= 1e-14 * y.abs() + 1e-15), "erfc_inv({:?}) = {:?} off by {:?}", x, y, dy);
                    if tiny {
                        ensure!(y > 26.3 && y < 27.3, "erfc_inv({:?}) = {:?}", x, y);
                    }
                }
                Ok(())
            });
            ctx.case(format!("gamma x={:?}", x), |t| {
                t.ops(2);
                let g = gamma(x);
                let r = if x < 0.0 && x == x.floor() { f64::NAN } else { unsafe { c_tgamma(x) } };
                ensure!(agree(g, r, 2e-14, r), "gamma({:?}) = {:?} instead of {:?}", x, g, r);
                let (l, s) = ln_gamma(x);
                let (rl, rs) = if x == f64::NEG_INFINITY { (x, 1) } else { lgam(x) };
                ensure!(agree(l, rl, 3e-15 * (1.0 + if x < 0.0 { 1.0 } else { 0.0 }), 1f64.max(rl.abs())), "ln_gamma({:?}) = {:?} instead of {:?}", x, l, rl);
                if rl.is_finite() {
                    ensure!(s == rs, "sign of gamma({:?}) = {} instead of {}", x, s, rs);
                }
                if x > 0.0 && x < 30.0 && (x - 1.0).abs() > 1e-7 && (x - 2.0).abs() > 1e-7 && x > 1e-300 {
                    ensure!((l - rl).abs() <= 2e-15 * rl.abs().max(0.1), "ln_gamma({:?}) = {:?} instead of {:?}", x, l, rl);
                }
                t.state_f64(&[g, l]);
                Ok(())
            });
        }
    });
    // Bessel functions of the first and second kinds
    let orders: Vec<i32> = (-8..=12).chain([-33, -20, 20, 33, 34, 40, 100]).collect();
    let mut bx = args(40, run.pick(16, 128));
    // next to the zeros of J0, J1, Y0 and Y1
    for k in 1..=12 {
        for z in [(|x| bessel_j0(x)) as fn(f64) -> f64, |x| bessel_j1(x), |x| bessel_y0(x), |x| bessel_y1(x)] {
            let (mut seen, mut x) = (0, 0.05);
            while seen < k {
                if z(x) * z(x + 0.1) <= 0.0 {
                    seen += 1;
                }
                x += 0.1;
            }
            let (mut a, mut b) = (x - 0.1, x);
            for _ in 0..60 {
                let m = (a + b) / 2.0;
                if z(a) * z(m) <= 0.0 { b = m } else { a = m }
            }
            bx.extend([a, a.next_up(), a.next_down(), a + 1e-12, a - 1e-12, a + 1e-8, -a]);
        }
    }
    run.section("bessel JY", chunks, |ctx, w| {
        for x in bx.iter().skip(w).step_by(chunks).cloned() {
            for n in &orders {
                let n = *n;
                ctx.case(format!("J n={} x={:?}", n, x), |t| {
                    t.ops(3);
                    let r = unsafe { c_jn(n, x) };
                    let (v, tol) = (bessel_jn(n, x), 1e-14);
                    let envelope = if x.abs() > n.abs() as f64 { (2.0 / (std::f64::consts::PI * x.abs())).sqrt() } else { 0.0 };
                    ensure!(agree(v, r, tol * (1.0 + n.abs() as f64), r.abs().max(envelope)), "J{}({:?}) = {:?} instead of {:?}", n, x, v, r);
                    match n {
                        0 => ensure!(same(bessel_j0(x), v), "j0 differs from jn(0)"),
                        1 => ensure!(same(bessel_j1(x), v), "j1 differs from jn(1)"),
                        _ => (),
                    }
                    t.state_f64(&[v]);
                    Ok(())
                });
                ctx.case(format!("Y n={} x={:?}", n, x), |t| {
                    t.ops(3);
                    let v = bessel_yn(n, x);
                    if x < 0.0 || x.is_nan() {
                        ensure!(v.is_nan(), "Y{}({:?}) = {:?} instead of NaN", n, x, v);
                        if n == 0 {
                            ensure!(bessel_y0(x).is_nan() && bessel_y1(x).is_nan(), "y0 or y1 at {:?}", x);
                        }
                        return Ok(());
                    }
                    if x == 0.0 {
                        let e = if n < 0 && n % 2 != 0 { f64::INFINITY } else { f64::NEG_INFINITY };
                        ensure!(v == e, "Y{}(0) = {:?} instead of {:?}", n, v, e);
                        return Ok(());
                    }
                    let r = unsafe { c_yn(n, x) };
                    let envelope = if x > n.abs() as f64 { (2.0 / (std::f64::consts::PI * x)).sqrt() } else { 0.0 };
                    ensure!(agree(v, r, 1e-14 * (1.0 + n.abs() as f64), r.abs().max(envelope).max(if x < 2.0 && n == 0 { 1.0 } else { 0.0 })), "Y{}({:?}) = {:?} instead of {:?}", n, x, v, r);
                    match n {
                        0 => ensure!(same(bessel_y0(x), v), "y0 differs from yn(0)"),
                        1 => ensure!(same(bessel_y1(x), v), "y1 differs from yn(1)"),
                        _ => (),
                    }
                    Ok(())
                });
            }
        }
    });
    // modified Bessel functions
    let mut mx: Vec<f64> = args(20, run.pick(8, 64));
    mx.extend((21..=720).map(|i| i as f64));
    mx.extend((21..=720).map(|i| -(i as f64) + 0.5));
    let orders: Vec<usize> = (0..=12).chain([20, 25, 40, 60, 100]).collect();
    run.section("bessel IK", chunks, |ctx, w| {
        for x in mx.iter().skip(w).step_by(chunks).cloned() {
            for n in &orders {
                let n = *n;
                ctx.case(format!("I n={} x={:?}", n, x), |t| {
                    t.ops(3);
                    let v = bessel_in(n, x);
                    let sgn = if x < 0.0 && n % 2 == 1 { -1.0 } else { 1.0 };
                    let r = if x.is_nan() { x } else if x.abs() > 1400.0 { sgn * f64::INFINITY } else { sgn * ref_in(n, x.abs()) };
                    ensure!(agree(v, r, if x.abs() > 100.0 || n > 25 { 2e-12 } else { 1e-13 }, r) || r.abs() < 1e-300 && v.abs() < 1e-299, "I{}({:?}) = {:?} instead of {:?}", n, x, v, r);
                    match n {
                        0 => ensure!(same(bessel_i0(x), v), "i0 differs from in(0)"),
                        1 => ensure!(same(bessel_i1(x), v), "i1 differs from in(1)"),
                        _ => (),
                    }
                    t.state_f64(&[v]);
                    Ok(())
                });
                ctx.case(format!("K n={} x={:?}", n, x), |t| {
                    t.ops(3);
                    let v = bessel_kn(n as i32, x);
                    if x.is_nan() || x < 0.0 {
                        ensure!(v.is_nan(), "K{}({:?}) = {:?} instead of NaN", n, x, v);
                        ensure!(bessel_k0(x).is_nan() && bessel_k1(x).is_nan(), "k0({:?}) = {:?}, k1 = {:?} instead of NaN", x, bessel_k0(x), bessel_k1(x));
                        return Ok(());
                    }
                    let r = if x == 0.0 { f64::INFINITY } else if x > 750.0 { 0.0 } else { ref_kn(n as i32, x) };
                    ensure!(agree(v, r, 1e-13, r) || r > 1e305 && v > 1e304, "K{}({:?}) = {:?} instead of {:?}", n, x, v, r);
                    match n {
                        0 => ensure!(same(bessel_k0(x), v), "k0 differs from kn(0)"),
                        1 => ensure!(same(bessel_k1(x), v), "k1 differs from kn(1)"),
                        _ => (),
                    }
                    Ok(())
                });
            }
        }
    });
    // beta
    let mut bs: Vec<f64> = (-24..=24).map(|i| i as f64 / 4.0).collect();
    bs.extend([0.1, 1e-3, 1e-8, 10.0, 20.3, 30.0, 50.0, 85.5, 100.0, 120.0, 171.0, 171.5, 172.0, 250.0, 1e3, 1e5, 999_999.0, 1e6, 1_000_001.0, 1e7, 1e9, -10.5, -30.25, -100.5, -171.5, -200.25, -1e4 - 0.5]);
    if run.thorough() {
        bs.extend((0..160).map(|i| -20.0 + 0.125 + i as f64 / 4.0));
    }
    run.section("beta", bs.len(), |ctx, i| {
        for b in bs.iter().cloned() {
            let a = bs[i];
            if i == 0 {
                ctx.case(format!("beta with NaN and {}", b), |t| {
                    t.ops(4);
                    for (p, q) in [(f64::NAN, b), (b, f64::NAN)] {
                        ensure!(beta(p, q).is_nan() && ln_beta(p, q).is_nan(), "beta({p}, {q}) = {} and {}", beta(p, q), ln_beta(p, q));
                    }
                    Ok(())
                });
            }
            ctx.case(format!("beta a={} b={}", a, b), |t| {
                t.ops(4);
                let (v, l) = (beta(a, b), ln_beta(a, b));
                ensure!(agree(v.abs(), beta(b, a).abs(), 1e-13, v) && agree(l, ln_beta(b, a), 1e-13, l), "not symmetric: {:?} {:?}, {:?} {:?}", v, beta(b, a), l, ln_beta(b, a));
                let is_npi = |x: f64| x <= 0.0 && x == x.floor();
                let (p, q) = if is_npi(a) { (a, b) } else { (b, a) };
                let (rl, sign) = if is_npi(p) {
                    // pole, unless it is cancelled by a pole of gamma(a+b)
                    if q == q.floor() && q > 0.0 && q <= -p {
                        // (-1)^q B(1-p-q, q)
                        let (x, y) = (1.0 - p - q, q);
                        (lgam(x).0 + lgam(y).0 - lgam(x + y).0, if q % 2.0 == 0.0 { 1.0 } else { -1.0 })
                    } else {
                        (f64::INFINITY, 1.0)
                    }
                } else if is_npi(a + b) {
                    (f64::NEG_INFINITY, 1.0)
                } else {
                    let (big, small) = if a.abs() > b.abs() { (a, b) } else { (b, a) };
                    let (ls, ss) = lgam(small);
                    if big > 2e4 && big.abs() > 300.0 * small.abs() {
                        // ln gamma(big) - ln gamma(big + small) by Stirling's series, without cancellation
                        let f = |x: f64| 1.0 / (12.0 * x) - 1.0 / (360.0 * x * x * x);
                        let c = big + small;
                        let d = -small * c.ln() - (big - 0.5) * (small / big).ln_1p() + small + f(big) - f(c);
                        (ls + d, ss as f64)
                    } else {
                        let (lb, sb) = lgam(big);
                        let (lc, sc) = lgam(a + b);
                        (lb + ls - lc, (sb * ss * sc) as f64)
                    }
                };
                // cancellation of logarithms of large factorials
                let big = a.abs().max(b.abs()).max(1.0);
                let scale = 1.0 + if big > 20.0 { big * big.ln() } else { 20.0 };
                let direct = big > 1e6 && a.abs().min(b.abs()) * 1e6 < big;
                let tol = if direct { 1e-12 } else { 1e-15 * scale };
                ensure!(agree(l, rl, tol, 1f64.max(if rl.is_finite() { rl.abs() } else { 1.0 })), "ln_beta({}, {}) = {:?} instead of {:?}", a, b, l, rl);
                let r = sign * rl.exp();
                ensure!(agree(v, r, 4.0 * tol, r) || (rl.is_infinite() && v.abs() == rl.exp()) || rl > 709.0 || rl < -700.0, "beta({}, {}) = {:?} instead of {:?}", a, b, v, r);
                t.state_f64(&[v]);
                Ok(())
            });
        }
    });
    // elliptic integrals
    let nphi = run.pick(25, 101);
    let ms: Vec<f64> = (0..=20).map(|i| i as f64 / 20.0).chain([1e-300, 1e-16, 1e-8, 0.999, 0.999999, 1.0 - 1e-10, 1.5, 2.0, 5.0, 30.0]).collect();
    let ns: Vec<f64> = (-12..=12).map(|i| i as f64 / 4.0).chain([0.1, 0.99, 0.999999, 1.01, -10.0, 10.0]).collect();
    run.section("elliptic", nphi, |ctx, i| {
        let phi = std::f64::consts::FRAC_PI_2 * i as f64 / (nphi - 1) as f64;
        for m in &ms {
            let m = *m;
            let mss = m * phi.sin() * phi.sin();
            // margins below which the value at the singularity is ill-conditioned
            let d = 1.0 - mss;
            ctx.case(format!("elliptic phi={:?} m={:?}", phi, m), |t| {
                t.ops(2);
                let (f, e) = (elliptic_f(phi, m), elliptic_e(phi, m));
                if mss > 1.0 + 1e-14 {
                    ensure!(f.is_err() && e.is_err(), "F({}, {}) = {:?}, E = {:?} instead of errors", phi, m, f, e);
                    return Ok(());
                }
                if d.abs() < 1e-14 {
                    if m == 1.0 {
                        ensure!(f == Ok(f64::INFINITY), "F({}, {}) = {:?} instead of infinity", phi, m, f);
                        let e = e?;
                        ensure!((e - 1.0).abs() < 1e-13, "E({}, {}) = {:?} instead of 1", phi, m, e);
                    } else {
                        t.trivial();
                    }
                    return Ok(());
                }
                let (f, e) = (f?, e?);
                let (rf, re) = if i == nphi - 1 {
                    // complete: arithmetic-geometric mean
                    let (mut a, mut b, mut c, mut s, mut p) = (1.0f64, (1.0 - m).sqrt(), m.sqrt(), 0.0f64, 0.5f64);
                    for _ in 0..40 {
                        s += p * c * c;
                        p *= 2.0;
                        let (x, y) = ((a + b) / 2.0, (a * b).sqrt());
                        c = c * c / (4.0 * x);
                        a = x;
                        b = y;
                        if c.abs() < 1e-200 {
                            break;
                        }
                    }
                    let k = std::f64::consts::FRAC_PI_2 / a;
                    (k, k * (1.0 - s))
                } else {
                    (tanh_sinh(phi, |x| 1.0 / (1.0 - m * x.sin().powi(2)).max(1e-300).sqrt()), tanh_sinh(phi, |x| (1.0 - m * x.sin().powi(2)).max(0.0).sqrt()))
                };
                let tol = (1e-15 / d).clamp(1e-12, 1e-4) ;
                ensure!(agree(f, rf, tol, rf), "F({}, {}) = {:?} instead of {:?}", phi, m, f, rf);
                ensure!(agree(e, re, tol, re), "E({}, {}) = {:?} instead of {:?}", phi, m, e, re);
                if i > 0 && i < nphi - 1 {
                    ensure!(e <= phi * (1.0 + 1e-15) && f >= phi * (1.0 - 1e-15), "ordering of E <= phi <= F");
                }
                t.state_f64(&[f, e]);
                Ok(())
            });
            for n in &ns {
                let n = *n;
                ctx.case(format!("elliptic n={:?} phi={:?} m={:?}", n, phi, m), |t| {
                    t.ops(2);
                    let v = elliptic_pi(n, phi, m);
                    if mss > 1.0 + 1e-14 {
                        ensure!(v.is_err(), "Pi({}, {}, {}) = {:?} instead of an error", n, phi, m, v);
                        return Ok(());
                    }
                    let nss = n * phi.sin() * phi.sin();
                    if (1.0 - nss).abs() < 1e-14 || d.abs() < 1e-14 {
                        if phi == std::f64::consts::FRAC_PI_2 && (n == 1.0 || m == 1.0) {
                            ensure!(v == Ok(f64::INFINITY), "Pi({}, {}, {}) = {:?} instead of infinity", n, phi, m, v);
                        } else {
                            t.trivial();
                        }
                        return Ok(());
                    }
                    let v = v?;
                    if phi == 0.0 {
                        ensure!(v == 0.0, "Pi({}, 0, {}) = {}", n, m, v);
                        return Ok(());
                    }
                    let tol = (1e-15 / d / (1.0 - nss).abs()).clamp(1e-11, 1e-4);
                    let r = if nss < 1.0 {
                        tanh_sinh(phi, |x| 1.0 / ((1.0 - n * x.sin().powi(2)) * (1.0 - m * x.sin().powi(2)).max(1e-300).sqrt()))
                    } else {
                        if m >= n {
                            t.trivial();
                            return Ok(());
                        }
                        // principal value
                        let delta = d.sqrt();
                        let p = ((n - 1.0) * (1.0 - m / n)).sqrt();
                        let log = if i == nphi - 1 { 0.0 } else { ((delta + p * phi.tan()) / (delta - p * phi.tan()).abs()).ln() / (2.0 * p) };
                        let big_n = m / n;
                        let pi = tanh_sinh(phi, |x| 1.0 / ((1.0 - big_n * x.sin().powi(2)) * (1.0 - m * x.sin().powi(2)).max(1e-300).sqrt()));
                        let f = tanh_sinh(phi, |x| 1.0 / (1.0 - m * x.sin().powi(2)).max(1e-300).sqrt());
                        f - pi + log
                    };
                    ensure!(agree(v, r, tol, r.abs().max(1.0)), "Pi({}, {}, {}) = {:?} instead of {:?}", n, phi, m, v, r);
                    Ok(())
                });
            }
        }
        for bad in [-0.1, -1e-300, 1.6, 2.0, 3.2, f64::INFINITY] {
            ctx.case(format!("elliptic i={} outside {:?}", i, bad), |t| {
                t.ops(6);
                ensure!(elliptic_f(bad, 0.5).is_err() && elliptic_e(bad, 0.5).is_err() && elliptic_pi(0.5, bad, 0.5).is_err(), "phi = {:?} accepted", bad);
                if bad < 0.0 {
                    ensure!(elliptic_f(phi, bad).is_err() && elliptic_e(phi, bad).is_err() && elliptic_pi(0.5, phi, bad).is_err(), "m = {:?} accepted", bad);
                }
                Ok(())
            });
        }
    });
    // orthogonal polynomials by their recurrences
    let nmax = run.pick(24, 60);
    let mut px: Vec<f64> = (-96..=96).map(|i| i as f64 / 64.0).collect();
    px.extend([1.0 - 1e-3, 1.0 - 1e-5, -1.0 + 1e-3, -1.0 + 1e-5, 1.0 + 1e-5, -1.0 - 1e-5, 2.0, -2.0, 3.5, -3.5]);
    run.section("polynomials", px.len(), |ctx, i| {
        let x = px[i];
        // (P, P', P'') by recurrence: family 0 = Legendre, 1 = T, 2 = U
        for fam in 0..3 {
            let mut rows: Vec<[f64; 3]> = vec![[1.0, 0.0, 0.0], match fam { 2 => [2.0 * x, 2.0, 0.0], _ => [x, 1.0, 0.0] }];
            for n in 1..nmax {
                let (a, b) = if fam == 0 { ((2 * n + 1) as f64 / (n + 1) as f64, n as f64 / (n + 1) as f64) } else { (2.0, 1.0) };
                let (c, p) = (rows[n], rows[n - 1]);
                rows.push([a * x * c[0] - b * p[0], a * (c[0] + x * c[1]) - b * p[1], a * (2.0 * c[1] + x * c[2]) - b * p[2]]);
            }
            for n in 0..=nmax {
                ctx.case(format!("polynomial family={} n={} x={}", fam, n, x), |t| {
                    t.ops(3);
                    let v = match fam {
                        0 => [legendre_pn(n, x), legendre_pn_deriv1(n, x), legendre_pn_deriv2(n, x)],
                        1 => [chebyshev_tn(n, x), chebyshev_tn_deriv1(n, x), chebyshev_tn_deriv2(n, x)],
                        _ => [chebyshev_un(n, x), chebyshev_un_deriv1(n, x), chebyshev_un_deriv2(n, x)],
                    };
                    let r = rows[n];
                    let nf = 1.0 + n as f64;
                    let near = if x.abs() == 1.0 { 1.0 } else { (1.0 - x * x).abs().min(1.0) };
                    for k in 0..3 {
                        // natural size of the k-th derivative and the cancellation next to +-1
                        let size = nf.powi(1 + 2 * k as i32 + if fam == 2 { 1 } else { 0 }).max(r[k].abs());
                        let tol = 2e-15 * nf * near.powi(-(k as i32)) * if fam > 0 { if x.abs() > 1.0 { nf / near.sqrt() } else { 1.0 / near.sqrt() } } else { 1.0 };
                        ensure!(agree(v[k], r[k], tol, size), "derivative {}: {:?} instead of {:?}", k, v[k], r[k]);
                    }
                    t.state_f64(&v);
                    Ok(())
                });
            }
        }
    });
    // quadrature points and weights
    let nq = run.pick(60, 150);
    run.section("points", nq, |ctx, nn| {
        ctx.case(format!("points nn={}", nn), |t| {
            t.ops(6);
            let np = nn + 1;
            let nf = nn as f64;
            let (cg, cl) = (chebyshev_gauss_points(nn), chebyshev_lobatto_points(nn));
            let (lg, ll) = (legendre_gauss_points(nn), legendre_lobatto_points(nn));
            let (wg, wl) = (legendre_gauss_weights(nn), legendre_lobatto_weights(nn));
            for v in [&cg, &cl, &lg, &ll, &wg, &wl] {
                ensure!(v.dim() == np, "{} entries instead of {}", v.dim(), np);
            }
            for i in 0..np {
                let a = -f64::cos(std::f64::consts::PI * (2 * i + 1) as f64 / (2.0 * nf + 2.0));
                ensure!(near(cg[i], a, 1e-15), "Chebyshev-Gauss point {}: {} instead of {}", i, cg[i], a);
                if nn > 0 {
                    let b = -f64::cos(std::f64::consts::PI * i as f64 / nf);
                    ensure!(near(cl[i], b, 1e-15), "Chebyshev-Lobatto point {}: {} instead of {}", i, cl[i], b);
                }
                ensure!(near(legendre_pn(np, lg[i]), 0.0, 1e-14 * np as f64), "Gauss point {} = {} is not a root", i, lg[i]);
                if i > 0 {
                    for (name, v) in [("Chebyshev-Gauss", &cg), ("Chebyshev-Lobatto", &cl), ("Gauss", &lg), ("Lobatto", &ll)] {
                        ensure!(v[i] > v[i - 1], "{} points not increasing: {:?}", name, v.as_data());
                    }
                }
                for (name, v) in [("Chebyshev-Gauss", &cg), ("Chebyshev-Lobatto", &cl), ("Gauss", &lg), ("Lobatto", &ll)] {
                    if nn > 0 || !name.contains("Lobatto") {
                        ensure!(near(v[i], -v[nn - i], 1e-14), "{} points not symmetric", name);
                    }
                }
            }
            if nn > 0 {
                ensure!(ll[0] == -1.0 && ll[nn] == 1.0 && cl[0] == -1.0 && cl[nn] == 1.0, "end points");
            }
            // exactness of the rules on Legendre polynomials (orthogonality to the constant)
            for k in 0..=(2 * nn + 1) {
                let exact = if k == 0 { 2.0 } else { 0.0 };
                let s: f64 = (0..np).map(|i| wg[i] * legendre_pn(k, lg[i])).sum();
                ensure!(near(s, exact, 1e-11), "Gauss rule on P{}: {} instead of {}", k, s, exact);
                if nn > 0 && k <= 2 * nn - 1 {
                    let s: f64 = (0..np).map(|i| wl[i] * legendre_pn(k, ll[i])).sum();
                    ensure!(near(s, exact, 1e-11), "Lobatto rule on P{}: {} instead of {}", k, s, exact);
                }
            }
            t.state_f64(wg.as_data());
            Ok(())
        });
    });
    // floating-point composition and modulo
    let mut small: Vec<f64> = args(3, 4);
    if !run.thorough() {
        small = small.into_iter().enumerate().filter(|(i, x)| *i < 100 || x.to_bits() % 3 == 0 || i % 16 == 0).map(|(_, x)| x).collect();
    }
    run.section("composition", small.len(), |ctx, i| {
        let x = small[i];
        ctx.case(format!("split x={:?}", x), |t| {
            t.ops(5);
            let (a, b) = float_split(x);
            if x.is_nan() {
                ensure!(a.is_nan() && b.is_nan(), "split of NaN");
            } else {
                let (ra, rb) = (x.trunc(), if x.is_infinite() { f64::copysign(0.0, x) } else { f64::copysign(x - x.trunc(), x) });
                ensure!(a.to_bits() == ra.to_bits() && b.to_bits() == rb.to_bits(), "split {:?} {:?} instead of {:?} {:?}", a, b, ra, rb);
            }
            ensure!(float_is_integer(x) == (x.is_finite() && x == x.trunc()), "float_is_integer");
            ensure!(float_is_neg_integer(x) == (x.is_finite() && x < 0.0 && x == x.trunc()), "float_is_neg_integer");
            let (m, e) = float_decompose(x);
            let mut re = 0;
            let rm = unsafe { c_frexp(x, &mut re) };
            if !x.is_finite() {
                re = 0;
            }
            ensure!(same(m, rm) && e == re && (x.is_nan() || m.is_sign_negative() == x.is_sign_negative()), "decompose {:?} {} instead of {:?} {}", m, e, rm, re);
            for k in (-60..=60).chain([-3000, -2200, -2098, -1100, -1075, -1074, -1073, -1023, -1022, -1021, 1022, 1023, 1024, 1025, 2046, 2098, 3000, i32::MIN, i32::MAX]) {
                t.op();
                let (v, r) = (float_compose(x, k), unsafe { c_ldexp(x, k) });
                // results below the normal range may be rounded twice
                let ulp = if r.abs() < f64::MIN_POSITIVE { 5e-324 } else { 0.0 };
                ensure!(same(v, r) || (v - r).abs() <= ulp, "compose({:?}, {}) = {:?} instead of {:?}", x, k, v, r);
                ensure!(r.is_nan() || v.is_sign_negative() == r.is_sign_negative(), "compose({:?}, {}): sign of {:?}", x, k, v);
            }
            Ok(())
        });
        for (j, y) in small.iter().enumerate() {
            let y = *y;
            if j > 100 && (i + j) % 37 != 0 && i > 100 {
                continue;
            }
            ctx.case(format!("modulo x={:?} y={:?}", x, y), |t| {
                t.op();
                let (v, r) = (modulo(x, y), x % y);
                ensure!(same(v, r), "modulo({:?}, {:?}) = {:?} instead of {:?}", x, y, v, r);
                Ok(())
            });
        }
    });
    // elementary functions with derivatives
    let mut ex: Vec<f64> = (-80..=80).map(|i| i as f64 / 8.0).collect();
    ex.extend([-0.0, 100.0, -100.0, 499.0, 501.0, -499.0, -501.0, 709.0, 711.0, 1e5, -1e5, f64::INFINITY, f64::NEG_INFINITY]);
    run.section("elementary", ex.len(), |ctx, i| {
        let x = ex[i];
        ctx.case(format!("elementary x={:?}", x), |t| {
            t.ops(20);
            let s = if x > 0.0 { 1.0 } else if x < 0.0 { -1.0 } else { 0.0 };
            ensure!(sign(x) == s && heaviside(x) == (s + 1.0) / 2.0 && ramp(x) == if s > 0.0 { x } else { 0.0 }, "sign, heaviside or ramp");
            let l = if x > 0.0 { 1.0 / (1.0 + (-x).exp()) } else { x.exp() / (1.0 + x.exp()) };
            ensure!(near(logistic(x), l, 1e-15), "logistic({}) = {}", x, logistic(x));
            ensure!(near(logistic_deriv1(x), l * (1.0 - l), 1e-15), "logistic_deriv1({}) = {}", x, logistic_deriv1(x));
            for beta in [0.5, 1.0, 2.0, 10.0, 100.0] {
                let bx = beta * x;
                let sp = if bx > 0.0 { x + (-bx).exp().ln_1p() / beta } else { bx.exp().ln_1p() / beta };
                let d1 = if bx > 0.0 { 1.0 / (1.0 + (-bx).exp()) } else { bx.exp() / (1.0 + bx.exp()) };
                let d2 = beta * (-bx.abs()).exp() / (1.0 + (-bx.abs()).exp()).powi(2);
                if x.is_finite() {
                    let v = [smooth_ramp(x, beta), smooth_ramp_deriv1(x, beta), smooth_ramp_deriv2(x, beta)];
                    ensure!(near(v[0], sp, 1e-14 * x.abs().max(1.0)) && near(v[1], d1, 1e-14) && near(v[2], d2, 1e-14 * beta * x.abs().max(1.0)), "smooth_ramp({}, {}) = {:?} instead of {:?}", x, beta, v, [sp, d1, d2]);
                }
            }
            for (a, b) in [(-1.0, 1.0), (0.0, 0.5), (-3.0, -2.875)] {
                let e = if x == a || x == b { 0.5 } else if x > a && x < b { 1.0 } else { 0.0 };
                ensure!(boxcar(x, a, b) == e, "boxcar({}, {}, {})", x, a, b);
                ensure!(guarded(|| boxcar(x, b, a)).is_err() && guarded(|| boxcar(x, a, a)).is_err(), "boxcar accepts an empty interval");
            }
            if x.is_finite() {
                for k in [0.25, 0.5, 1.0, 2.0, 3.0] {
                    let f = |v: f64| if v == 0.0 { 0.0 } else { v.signum() * v.abs().powf(k) };
                    ensure!(near(suq_sin(x, k), f(x.sin()), 1e-15) && near(suq_cos(x, k), f(x.cos()), 1e-15), "suq({}, {})", x, k);
                }
            }
            Ok(())
        });
        for n in (-12..=12).chain([i32::MAX, i32::MAX - 1, i32::MIN, i32::MIN + 1]) {
            ctx.case(format!("powers x={:?} n={}", x, n), |t| {
                t.ops(3);
                let m = n.rem_euclid(4);
                let unit = [(1.0, 0.0), (0.0, 1.0), (-1.0, 0.0), (0.0, -1.0)][m as usize];
                ensure!(neg_one_pow_n(n) == if m % 2 == 0 { 1.0 } else { -1.0 }, "neg_one_pow_n({})", n);
                let z = i_pow_n(n);
                ensure!(z.re == unit.0 && z.im == unit.1, "i_pow_n({}) = {:?}", n, z);
                if x.is_finite() && n.abs_diff(0) < 100 {
                    let z = x_times_i_pow_n(x, n);
                    let p = x.powi(n);
                    let (re, im) = (if unit.0 == 0.0 { 0.0 } else { p * unit.0 }, if unit.1 == 0.0 { 0.0 } else { p * unit.1 });
                    ensure!(same(z.re, re) && same(z.im, im), "x_times_i_pow_n({}, {}) = {:?} instead of ({}, {})", x, n, z, re, im);
                }
                Ok(())
            });
        }
        if i <= 30 {
            ctx.case(format!("factorial {}", i), |t| {
                t.op();
                if i > 22 {
                    ensure!(guarded(|| factorial_lookup_22(i)).is_err(), "factorial of {} accepted", i);
                } else {
                    let f: u128 = (1..=i as u128).product();
                    ensure!(factorial_lookup_22(i) == f as f64, "{}! = {}", i, factorial_lookup_22(i));
                }
                Ok(())
            });
        }
    });
}
