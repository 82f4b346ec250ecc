//! P06: sample problems are coherent and the spectral solvers reproduce their solutions and flows

use mc::*;
use russell_lab::math::PI;
use russell_lab::Vector;
use russell_pde::*;

/// First and second derivative by central differences of order six
fn derivatives(f: &dyn Fn(f64) -> f64, x: f64, h: f64) -> (f64, f64) {
    let v: Vec<f64> = (-3..=3).map(|k| f(x + k as f64 * h)).collect();
    let d1 = (-v[0] + 9.0 * v[1] - 45.0 * v[2] + 45.0 * v[4] - 9.0 * v[5] + v[6]) / (60.0 * h);
    let d2 = (2.0 * v[0] - 27.0 * v[1] + 270.0 * v[2] - 490.0 * v[3] + 270.0 * v[4] - 27.0 * v[5] + 2.0 * v[6]) / (180.0 * h * h);
    (d1, d2)
}

type F1 = Box<dyn Fn(f64) -> f64>;
type F2 = Box<dyn Fn(f64, f64) -> f64>;

struct Line<'a> {
    limits: (f64, f64),
    k: f64,
    alpha: f64,
    ebcs: EssentialBcs1d<'a>,
    nbcs: NaturalBcs1d<'a>,
    source: F1,
    solution: F1,
    flow: Option<F1>,
}

/// Documented limits, coefficients and solution
struct Doc1 {
    limits: (f64, f64),
    k: f64,
    alpha: f64,
    solution: F1,
    /// allowance for the flow
    waves: f64,
    /// ends with prescribed values
    fixed: (bool, bool),
}

fn lines() -> Vec<(String, Box<dyn Fn() -> (Line<'static>, Doc1) + Sync>)> {
    let mut all: Vec<(String, Box<dyn Fn() -> (Line<'static>, Doc1) + Sync>)> = vec![];
    all.push((
        "01".to_string(),
        Box::new(|| {
            let (a, b, k, ebcs, nbcs, source, solution, flow) = ProblemSamples::d1_problem_01();
            (
                Line { limits: (a, b), k, alpha: 0.0, ebcs, nbcs, source, solution, flow: Some(flow) },
                Doc1 { limits: (0.0, 1.0), k: 1.0, alpha: 0.0, solution: Box::new(|x| (x - x * x * x) / 6.0), waves: 1.0, fixed: (true, true) },
            )
        }),
    ));
    all.push((
        "02".to_string(),
        Box::new(|| {
            let (a, b, k, alpha, ebcs, nbcs, source, solution) = ProblemSamples::d1_problem_02();
            let m = (2.0 * PI / 0.01571).sqrt();
            (
                Line { limits: (a, b), k, alpha, ebcs, nbcs, source, solution, flow: None },
                Doc1 {
                    limits: (0.0, 0.05),
                    k: 0.01571,
                    alpha: 2.0 * PI,
                    solution: Box::new(move |x| 20.0 + 300.0 * (m * (0.05 - x)).cosh() / (m * 0.05).cosh()),
                    waves: 1.0, fixed: (true, false),
                },
            )
        }),
    ));
    all.push((
        "03".to_string(),
        Box::new(|| {
            let (a, b, k, alpha, ebcs, nbcs, source, solution) = ProblemSamples::d1_problem_03();
            (
                Line { limits: (a, b), k, alpha, ebcs, nbcs, source, solution, flow: None },
                Doc1 { limits: (0.0, 1.0), k: 1.0, alpha: 1.0, solution: Box::new(|x| x.sinh() / 1f64.cosh() + x * x + 2.0), waves: 1.0, fixed: (true, false) },
            )
        }),
    ));
    all.push((
        "04a".to_string(),
        Box::new(|| {
            let (a, b, k, ebcs, nbcs, source, solution) = ProblemSamples::d1_problem_04a();
            (
                Line { limits: (a, b), k, alpha: 0.0, ebcs, nbcs, source, solution, flow: None },
                Doc1 { limits: (-1.0, 1.0), k: -1.0, alpha: 0.0, solution: Box::new(|x| ((4.0 * x).exp() - 4f64.sinh() * x - 4f64.cosh()) / 16.0), waves: 1.0, fixed: (true, true) },
            )
        }),
    ));
    all.push((
        "04b".to_string(),
        Box::new(|| {
            let (a, b, k, ebcs, nbcs, source, solution) = ProblemSamples::d1_problem_04b();
            (
                Line { limits: (a, b), k, alpha: 0.0, ebcs, nbcs, source, solution, flow: None },
                Doc1 { limits: (-1.0, 1.0), k: -1.0, alpha: 0.0, solution: Box::new(|x| ((4.0 * x).exp() - 4.0 * (-4f64).exp() * (x - 1.0) - 4f64.exp()) / 16.0), waves: 1.0, fixed: (false, true) },
            )
        }),
    ));
    for beta in [0.5, 1.0, 2.0, 87.4f64.sqrt()] {
        for ll in [0.5, 1.0, 1.25] {
            for g0 in [-1.0, 0.0, 1.0, 2.0] {
                for phi in [0.2, -1.0] {
                    all.push((
                        format!("05 beta={beta} L={ll} g0={g0} phi={phi}"),
                        Box::new(move || {
                            let (a, b, k, ebcs, nbcs, source, solution, flow) = ProblemSamples::d1_problem_05(beta, ll, g0, phi);
                            let c1 = g0 / beta;
                            let c2 = (phi - c1 * (beta * ll).sin()) / (beta * ll).cos();
                            (
                                Line { limits: (a, b), k, alpha: beta * beta, ebcs, nbcs, source, solution, flow: Some(flow) },
                                Doc1 { limits: (0.0, ll), k: -1.0, alpha: beta * beta, solution: Box::new(move |x| c1 * (beta * x).sin() + c2 * (beta * x).cos()), waves: 2.0, fixed: (false, true) },
                            )
                        }),
                    ));
                }
            }
        }
    }
    all
}

fn intervals(run: &mut Run) {
    let all = lines();
    let sizes: Vec<usize> = if run.thorough() { (20..40).collect() } else { vec![21, 24] };
    run.section("intervals", all.len(), |ctx, w| {
        let (name, make) = &all[w];
        for i in 0..=20 {
            ctx.case(format!("{name} equation {i}"), |t| {
                t.ops(4);
                let (p, d) = make();
                ensure!(p.limits == d.limits && p.k == d.k && near(p.alpha, d.alpha, 1e-15), "data {:?} {} {}", p.limits, p.k, p.alpha);
                let l = d.limits.1 - d.limits.0;
                let x = d.limits.0 + l * i as f64 / 20.0;
                let want = (d.solution)(x);
                t.state_f64(&[want]);
                let size = (0..=20).fold(1.0, |m: f64, q| m.max((d.solution)(d.limits.0 + l * q as f64 / 20.0).abs()));
                ensure!(near((p.solution)(x), want, 1e-12 * size), "solution {} instead of {}", (p.solution)(x), want);
                let (d1, d2) = derivatives(&*d.solution, x, l / 256.0);
                let s = (p.source)(x);
                ensure!(near(s, -d.k * d2 + d.alpha * want, 1e-6 * size * (1.0 + d.alpha.abs() + d.k.abs() / (l * l))), "source {} instead of {}", s, -d.k * d2 + d.alpha * want);
                if let Some(f) = &p.flow {
                    ensure!(near(f(x), -d.k * d1, 1e-7 * size / l), "flow {} instead of {}", f(x), -d.k * d1);
                }
                Ok(())
            });
        }
        for nx in &sizes {
            for lmm in [false, true] {
                ctx.case(format!("{name} solved with {nx} points lmm={lmm}"), |t| {
                    t.ops(2);
                    let (p, d) = make();
                    let spc = Spc1d::new(d.limits.0, d.limits.1, *nx, p.ebcs, p.nbcs, p.k)?;
                    let a = if lmm { spc.solve_lmm(d.alpha, &p.source)? } else { spc.solve_sps(d.alpha, &p.source)? };
                    t.state_f64(a.as_data());
                    let w = spc.calculate_flow_vectors(&a)?;
                    let eq = spc.get_equations();
                    ensure!((eq.is_prescribed(0), eq.is_prescribed(nx - 1)) == d.fixed && eq.np() == d.fixed.0 as usize + d.fixed.1 as usize, "prescribed ends");
                    let l = d.limits.1 - d.limits.0;
                    let mut size: f64 = 1.0;
                    spc.for_each_coord(|_, x| size = size.max((d.solution)(x).abs()));
                    let mut res = Ok(());
                    spc.for_each_coord(|m, x| {
                        let (want, flow) = ((d.solution)(x), -d.k * derivatives(&*d.solution, x, l / 256.0).0);
                        if !near(a[m], want, 1e-7 * size) {
                            res = Err(format!("value {} instead of {} at {}", a[m], want, x));
                        } else if !near(w[m], flow, 1e-5 * size / l * d.waves) {
                            res = Err(format!("flow {} instead of {} at {}", w[m], flow, x));
                        }
                    });
                    res.map_err(|e| e.into())
                });
            }
        }
    });
}

struct Square {
    limits: [f64; 4],
    k: (f64, f64),
    alpha: f64,
    ebcs: EssentialBcs2d<'static>,
    nbcs: NaturalBcs2d<'static>,
    source: F2,
    solution: F2,
    flow: Option<Box<dyn Fn(f64, f64) -> (f64, f64)>>,
}

struct Doc2 {
    limits: [f64; 4],
    k: f64,
    solution: F2,
    source: F2,
    /// the solution is a truncated series: error of the values, no judgement of derivatives
    series: Option<f64>,
    points: usize,
    accuracy: f64,
    /// right, top, left and bottom side: value (D) or flux (N)
    sides: &'static str,
}

fn squares() -> Vec<(String, Box<dyn Fn() -> (Square, Doc2) + Sync>)> {
    let mut all: Vec<(String, Box<dyn Fn() -> (Square, Doc2) + Sync>)> = vec![];
    for case_a in [true, false] {
        all.push((
            format!("01 {case_a}"),
            Box::new(move || {
                let (a, b, c, d, kx, ky, ebcs, nbcs, source, solution, flow) = ProblemSamples::d2_problem_01(case_a);
                (
                    Square { limits: [a, b, c, d], k: (kx, ky), alpha: 0.0, ebcs, nbcs, source, solution, flow: Some(flow) },
                    Doc2 {
                        limits: [0.0, 1.0, 0.0, 1.0],
                        k: 1.0,
                        solution: Box::new(|x, y| x * y * (x - 1.0) * (y - 1.0) * (x - y).exp()),
                        source: Box::new(|x, y| 2.0 * x * (1.0 - y) * (y - 2.0 * x + x * y + 2.0) * (x - y).exp()),
                        series: None,
                        points: 14,
                        accuracy: 1e-9, sides: if case_a { "DDDD" } else { "DDNN" },
                    },
                )
            }),
        ));
    }
    all.push((
        "02".to_string(),
        Box::new(|| {
            let (a, b, c, d, kx, ky, ebcs, nbcs, source, solution) = ProblemSamples::d2_problem_02();
            (
                Square { limits: [a, b, c, d], k: (kx, ky), alpha: 0.0, ebcs, nbcs, source, solution, flow: None },
                Doc2 {
                    limits: [0.0, 1.0, 0.0, 1.0],
                    k: -1.0,
                    solution: Box::new(|x, y| y * (PI * x).sin()),
                    source: Box::new(|x, y| -PI * PI * y * (PI * x).sin()),
                    series: None,
                    points: 14,
                    accuracy: 1e-9, sides: "DDDD",
                },
            )
        }),
    ));
    for combo in ["NNDD", "NDND", "DNND", "DDNN", "DDDD"] {
        for k in [0.5, 1.0, 2.0, -1.0] {
            for alpha in [0.0, 1.0, 10.0] {
                all.push((
                    format!("03 {combo} k={k} alpha={alpha}"),
                    Box::new(move || {
                        let (a, b, c, d, kx, ky, ebcs, nbcs, source, solution, flow) = ProblemSamples::d2_problem_03(k, alpha, combo);
                        (
                            Square { limits: [a, b, c, d], k: (kx, ky), alpha, ebcs, nbcs, source, solution, flow: Some(flow) },
                            Doc2 {
                                limits: [0.0, 1.0, 0.0, 1.0],
                                k,
                                solution: Box::new(|x, y| (2.0 * PI * x).sin() * (2.0 * PI * y).cos()),
                                source: Box::new(move |x, y| (8.0 * k * PI * PI + alpha) * (2.0 * PI * x).sin() * (2.0 * PI * y).cos()),
                                series: None,
                                points: 18,
                                accuracy: 1e-6, sides: combo,
                            },
                        )
                    }),
                ));
            }
        }
    }
    for n in [51, 101, 201, 220] {
        all.push((
            format!("04 {n}"),
            Box::new(move || {
                let (a, b, c, d, kx, ky, ebcs, nbcs, source, solution) = ProblemSamples::d2_problem_04(n);
                (
                    Square { limits: [a, b, c, d], k: (kx, ky), alpha: 0.0, ebcs, nbcs, source, solution, flow: None },
                    Doc2 {
                        limits: [-1.0, 1.0, -1.0, 1.0],
                        k: 1.0,
                        // ratios of hyperbolic sines through decaying exponentials
                        solution: Box::new(move |x, y| {
                            let mut sum = 0.0;
                            for k in (1..n).step_by(2) {
                                let q = k as f64 * PI;
                                let r = |s: f64| (((s - 1.0) * q).exp() - ((-s - 1.0) * q).exp()) / (1.0 - (-2.0 * q).exp());
                                sum += (q * (1.0 + x) / 2.0).sin() * (r((1.0 + y) / 2.0) + r((1.0 - y) / 2.0)) / (k as f64).powi(3);
                            }
                            (1.0 - x * x) / 2.0 - 16.0 * sum / PI.powi(3)
                        }),
                        source: Box::new(|_, _| 1.0),
                        series: Some(1e-12),
                        points: 20,
                        accuracy: 3.0 / (n * n) as f64, sides: "DDDD",
                    },
                )
            }),
        ));
    }
    all.push((
        "05".to_string(),
        Box::new(|| {
            let (a, b, c, d, kx, ky, ebcs, nbcs, source, solution) = ProblemSamples::d2_problem_05();
            (
                Square { limits: [a, b, c, d], k: (kx, ky), alpha: 0.0, ebcs, nbcs, source, solution, flow: None },
                Doc2 { limits: [-1.0, 1.0, -1.0, 1.0], k: 1.0, solution: Box::new(|x, _| 1.0 + x * x * x), source: Box::new(|x, _| -6.0 * x), series: None, points: 8, accuracy: 1e-9, sides: "DNDN" },
            )
        }),
    ));
    all.push((
        "06".to_string(),
        Box::new(|| {
            let (a, b, c, d, kx, ky, ebcs, nbcs, source, solution) = ProblemSamples::d2_problem_06();
            (
                Square { limits: [a, b, c, d], k: (kx, ky), alpha: 0.0, ebcs, nbcs, source, solution, flow: None },
                Doc2 {
                    limits: [-1.0, 1.0, -1.0, 1.0],
                    k: 1.0,
                    solution: Box::new(|x, y| (1.0 - x + y).tanh()),
                    source: Box::new(|x, y| 4.0 * (1.0 - x + y).tanh() / (1.0 - x + y).cosh().powi(2)),
                    series: None,
                    points: 24,
                    accuracy: 1e-5, sides: "NDDD",
                },
            )
        }),
    ));
    all.push((
        "07".to_string(),
        Box::new(|| {
            let (a, b, c, d, kx, ky, ebcs, nbcs, source, solution) = ProblemSamples::d2_problem_07();
            (
                Square { limits: [a, b, c, d], k: (kx, ky), alpha: 0.0, ebcs, nbcs, source, solution, flow: None },
                Doc2 {
                    limits: [-1.0, 1.0, -1.0, 1.0],
                    k: -1.0,
                    solution: Box::new(|x, y| (2.0 * PI * x).cos() * (2.0 * PI * y).sin()),
                    source: Box::new(|x, y| -8.0 * PI * PI * (2.0 * PI * x).cos() * (2.0 * PI * y).sin()),
                    series: None,
                    points: 24,
                    accuracy: 1e-5, sides: "DDDD",
                },
            )
        }),
    ));
    all
}

/// Source and flow from the solution
fn equation(x: f64, y: f64, h: f64, k: f64, alpha: f64, f: &dyn Fn(f64, f64) -> f64) -> (f64, f64, f64) {
    let (dx, dxx) = derivatives(&|v| f(v, y), x, h);
    let (dy, dyy) = derivatives(&|v| f(x, v), y, h);
    (-k * (dxx + dyy) + alpha * f(x, y), -k * dx, -k * dy)
}

fn judge(what: &str, m: usize, got: f64, want: f64, tol: f64) -> Outcome {
    ensure!(near(got, want, tol), "{what} at point {m}: {got} instead of {want}");
    Ok(())
}

fn domains(run: &mut Run) {
    let all = squares();
    let more: Vec<usize> = if run.thorough() { vec![0, 1, 2, 3, 6] } else { vec![0, 1] };
    run.section("squares", all.len(), |ctx, w| {
        let (name, make) = &all[w];
        for q in 0..121 {
            ctx.case(format!("{name} equation {q}"), |t| {
                t.ops(4);
                let (p, d) = make();
                ensure!(p.limits == d.limits && p.k == (d.k, d.k), "data {:?} {:?}", p.limits, p.k);
                let (u, v) = ((q % 11) as f64 / 10.0, (q / 11) as f64 / 10.0);
                let x = d.limits[0] + u * (d.limits[1] - d.limits[0]);
                let y = d.limits[2] + v * (d.limits[3] - d.limits[2]);
                t.state_f64(&[x, y]);
                judge("source", q, (p.source)(x, y), (d.source)(x, y), 1e-11 * (1.0 + (d.source)(x, y).abs()))?;
                judge("solution", q, (p.solution)(x, y), (d.solution)(x, y), d.series.unwrap_or(1e-12))?;
                if d.series.is_none() {
                    let (s, wx, wy) = equation(x, y, 1.0 / 128.0, d.k, p.alpha, &*d.solution);
                    judge("source of the solution", q, (p.source)(x, y), s, 1e-5 * (1.0 + s.abs()))?;
                    if let Some(f) = &p.flow {
                        judge("flow along x", q, f(x, y).0, wx, 1e-6 * (1.0 + wx.abs()))?;
                        judge("flow along y", q, f(x, y).1, wy, 1e-6 * (1.0 + wy.abs()))?;
                    }
                }
                Ok(())
            });
        }
        for add in &more {
            for lmm in [false, true] {
                ctx.case(format!("{name} solved +{add} lmm={lmm}"), |t| {
                    t.ops(2);
                    let (p, d) = make();
                    let [a, b, c, e] = d.limits;
                    let n = d.points + add;
                    let spc = Spc2d::new(a, b, c, e, n, n + 1, p.ebcs, p.nbcs, p.k.0, p.k.1)?;
                    let v = if lmm { spc.solve_lmm(p.alpha, &p.source)? } else { spc.solve_sps(p.alpha, &p.source)? };
                    t.state_f64(v.as_data());
                    let (wx, wy) = spc.calculate_flow_vectors(&v)?;
                    let mut res: Outcome = Ok(());
                    let side: Vec<bool> = d.sides.chars().map(|c| c == 'D').collect();
                    spc.for_each_coord(|m, x, y| {
                        let (i, j) = (m % n, m / n);
                        let fixed = i == n - 1 && side[0] || j == n && side[1] || i == 0 && side[2] || j == 0 && side[3];
                        if res.is_ok() && spc.get_equations().is_prescribed(m) != fixed {
                            res = Err(format!("the node ({i},{j}) is prescribed or not").into());
                        }
                        if res.is_ok() {
                            res = judge("value", m, v[m], (d.solution)(x, y), d.accuracy);
                        }
                        if res.is_ok() && d.series.is_none() {
                            let (_, fx, fy) = equation(x, y, 1.0 / 128.0, d.k, p.alpha, &*d.solution);
                            res = judge("flow along x", m, wx[m], fx, 1e3 * d.accuracy.max(1e-8)).and(judge("flow along y", m, wy[m], fy, 1e3 * d.accuracy.max(1e-8)));
                        }
                    });
                    res
                });
            }
        }
    });
    let bad = ["", "NNNN", "DNDN", "nndd", "DDDN", "NDDD", "DDDX"];
    run.section("combinations", bad.len(), |ctx, w| {
        ctx.case(bad[w], |t| {
            t.op();
            t.state(&w);
            ensure!(guarded(|| ProblemSamples::d2_problem_03(1.0, 0.0, bad[w]).0).is_err(), "accepted");
            Ok(())
        });
    });
}

/// Rings and lozenges
fn mapped(run: &mut Run) {
    let radii = [(1.0, 2.0), (0.5, 1.5), (2.0, 3.0), (1.0, 1.5)];
    let more = run.pick(1, 6);
    run.section("mapped", 3 * radii.len(), |ctx, w| {
        let (kind, (ra, rb)) = (w % 3, radii[w / 3]);
        for speed in if kind == 2 { vec![0.5, -2.0] } else { vec![0.0] } {
            let get = || match kind {
                0 | 1 => ProblemSamples::d2_problem_08(ra, rb, kind == 1),
                _ => ProblemSamples::d2_problem_09(ra, rb, speed),
            };
            let solution = move |x: f64, y: f64| {
                let (r, theta) = (x.hypot(y), y.atan2(x));
                if kind < 2 {
                    r.ln() * (4.0 * theta).sin()
                } else {
                    (r + ra * ra / r) * speed * theta.cos()
                }
            };
            let end = if kind == 2 { PI } else { PI / 2.0 };
            for q in 0..99 {
                ctx.case(format!("{kind} {ra} {rb} {speed} equation {q}"), |t| {
                    t.ops(3);
                    let (_, k, _, _, source, given) = get();
                    ensure!(k == -1.0, "coefficient {k}");
                    let (r, theta) = (ra + (rb - ra) * (q % 9) as f64 / 8.0, end * (q / 9) as f64 / 10.0);
                    let (x, y) = (r * theta.cos(), r * theta.sin());
                    t.state_f64(&[x, y]);
                    judge("solution", q, given(x, y), solution(x, y), 1e-12)?;
                    // away from the cut of the angle
                    if theta < 3.0 {
                        let (s, _, _) = equation(x, y, 1.0 / 256.0, k, 0.0, &solution);
                        judge("source", q, source(x, y), s, 1e-5 * (1.0 + 1.0 / (r * r)))?;
                    }
                    Ok(())
                });
            }
            for add in 0..=more {
                for lmm in [false, true] {
                    ctx.case(format!("{kind} {ra} {rb} {speed} solved +{add} lmm={lmm}"), |t| {
                        t.ops(2);
                        let (map, k, ebcs, nbcs, source, _) = get();
                        let n = 20 + add;
                        let mut spc = SpcMap2d::new(map, n, n + 1, ebcs, nbcs, k)?;
                        let v: Vector = if lmm { spc.solve_lmm(0.0, &source)? } else { spc.solve_sps(0.0, &source)? };
                        t.state_f64(v.as_data());
                        let (wx, wy) = spc.calculate_flow_vectors(&v)?;
                        let mut res: Outcome = Ok(());
                        spc.for_each_coord(|m, x, y| {
                            if res.is_ok() {
                                res = judge("value", m, v[m], solution(x, y), 1e-5);
                            }
                            if res.is_ok() && x > -0.999 * rb {
                                let (_, fx, fy) = equation(x, y, 1.0 / 256.0, k, 0.0, &solution);
                                if y.abs() > 0.02 || x > 0.0 {
                                    res = judge("flow along x", m, wx[m], fx, 1e-2).and(judge("flow along y", m, wy[m], fy, 1e-2));
                                }
                            }
                        });
                        res
                    });
                }
            }
        }
    });
}

pub fn explore(run: &mut Run) {
    run.level(
        "exploration",
        "every sample problem over lists of its parameters: source, solution and flow against the documented formulae and their differences on a lattice; boundary conditions through the spectral solution with both strategies",
    );
    run.assume("the differences of order six with the stated stepsizes are accurate to the stated tolerances");
    intervals(run);
    domains(run);
    mapped(run);
}
