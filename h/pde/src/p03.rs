//! P03: finite differences

use mc::*;
use russell_lab::{Matrix, Vector};
use russell_pde::*;
use russell_sparse::{CooMatrix, Genie, Sym};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    Value,
    Flux,
    Ring,
}

pub const SIDES: [Side; 4] = [Side::Xmin, Side::Xmax, Side::Ymin, Side::Ymax];

/// Conditions along one direction
pub fn direction(k: usize) -> [Kind; 2] {
    use Kind::*;
    [[Value, Value], [Value, Flux], [Flux, Value], [Flux, Flux], [Ring, Ring]][k]
}

/// Power and its first two derivatives; x is relative to `o` and scaled by `l`
#[derive(Clone, Copy)]
pub struct Mono {
    pub p: usize,
    pub o: f64,
    pub l: f64,
}

impl Mono {
    pub fn d(&self, n: usize, x: f64) -> f64 {
        let z = (x - self.o) / self.l;
        let mut c = 1.0;
        for i in 0..n {
            if self.p < i + 1 {
                return 0.0;
            }
            c *= (self.p - i) as f64 / self.l;
        }
        c * z.powi((self.p - n) as i32)
    }
}

struct Dom {
    xmin: f64,
    lx: f64,
    ymin: f64,
    ly: f64,
    kx: f64,
    ky: f64,
}

const DOMS: [Dom; 4] = [
    Dom { xmin: 0.0, lx: 1.0, ymin: 0.0, ly: 1.0, kx: 1.0, ky: 1.0 },
    Dom { xmin: -1.0, lx: 3.0, ymin: 2.0, ly: 1.5, kx: 0.5, ky: 2.0 },
    Dom { xmin: 1e-4, lx: 2e-3, ymin: -1e-3, ly: 3e-3, kx: 40.0, ky: 70.0 },
    Dom { xmin: -1e4, lx: 3e4, ymin: 0.0, ly: 1e4, kx: 2e-3, ky: 1e-3 },
];

fn agrees(what: &str, got: &Vector, want: &[f64], tol: f64) -> Outcome {
    ensure!(got.dim() == want.len(), "{what}: solution of length {}", got.dim());
    let big = want.iter().fold(1e-300, |a: f64, b| a.max(b.abs()));
    for m in 0..want.len() {
        ensure!((got[m] - want[m]).abs() <= tol * big, "{what}: solution at node {m} is {} instead of {}", got[m], want[m]);
    }
    Ok(())
}

/// Powers exactly represented under the conditions of one direction
fn powers(d: [Kind; 2]) -> usize {
    if d.contains(&Kind::Flux) {
        3
    } else {
        4
    }
}

fn entry(a: &Matrix, i: usize, j: usize) -> f64 {
    a.get(i, j)
}

fn same(what: &str, a: &Matrix, b: &Matrix) -> Outcome {
    ensure!(a.dims() == b.dims(), "{what}: {:?} instead of {:?}", a.dims(), b.dims());
    let (n, m) = a.dims();
    for i in 0..n {
        for j in 0..m {
            let (x, y) = (entry(a, i, j), entry(b, i, j));
            ensure!((x - y).abs() <= 1e-14 * f64::max(x.abs(), y.abs()), "{what}: entry ({i},{j}) is {x} instead of {y}");
        }
    }
    Ok(())
}

/// Assembled operators of both strategies and every symmetry option against the molecules
#[allow(clippy::too_many_arguments)]
fn operators(
    t: &mut Trace,
    eq: &EquationHandler,
    alpha: f64,
    sps: &dyn Fn(Sym, usize) -> (CooMatrix, Option<CooMatrix>),
    lmm: &dyn Fn(Sym, usize, bool) -> (CooMatrix, Option<CooMatrix>),
    row: &dyn Fn(usize) -> Vec<f64>,
    sides: &dyn Fn(usize) -> usize,
) -> Outcome {
    let neq = eq.neq();
    let (mm, none) = lmm(Sym::No, 0, false);
    ensure!(none.is_none(), "constraint matrix not asked for");
    let mm = mm.as_dense();
    ensure!(mm.dims() == (neq + eq.np(), neq + eq.np()), "augmented matrix is {:?}", mm.dims());
    // rows of the operator are the molecules up to the share of the cell inside the domain
    for m in 0..neq {
        t.op();
        let mut want = row(m);
        want[m] += alpha;
        let share = 0.5_f64.powi(sides(m) as i32);
        for n in 0..neq {
            let got = mm.get(m, n);
            ensure!(
                (got - want[n] * share).abs() <= 1e-14 * want[m].abs(),
                "operator ({m},{n}) is {got} instead of {}",
                want[n] * share
            );
        }
        for q in 0..eq.np() {
            let want = if eq.is_prescribed(m) && eq.ip(m) == q { 1.0 } else { 0.0 };
            ensure!(mm.get(m, neq + q) == want && mm.get(neq + q, m) == want, "constraint of node {m}");
        }
    }
    for p in neq..neq + eq.np() {
        for q in neq..neq + eq.np() {
            ensure!(mm.get(p, q) == 0.0, "block of the multipliers is not zero");
        }
    }
    let syms = [Sym::No, Sym::YesFull, Sym::YesLower, Sym::YesUpper];
    for sym in syms {
        for extra in [0, 2] {
            let (other, cc) = lmm(sym, extra, true);
            same(&format!("augmented matrix with {sym:?}"), &other.as_dense(), &mm)?;
            ensure!(cc.is_some() == (eq.np() > 0), "constraint matrix");
            if let Some(cc) = cc {
                let cc = cc.as_dense();
                ensure!(cc.dims() == (eq.np(), neq), "constraint matrix is {:?}", cc.dims());
                for q in 0..eq.np() {
                    for n in 0..neq {
                        let want = if n == eq.prescribed()[q] { 1.0 } else { 0.0 };
                        ensure!(cc.get(q, n) == want, "constraint matrix ({q},{n})");
                    }
                }
            }
            let mut other = other;
            for _ in 0..extra {
                other.put(0, 0, 1.0).map_err(|e| format!("no room for the {extra} extra entries: {e}"))?;
            }
            if eq.nu() == 0 {
                continue;
            }
            let (mut kk_bar, kk_check) = sps(sym, extra);
            let d = kk_bar.as_dense();
            ensure!(d.dims() == (eq.nu(), eq.nu()), "partitioned matrix is {:?}", d.dims());
            for i in 0..eq.nu() {
                for j in 0..eq.nu() {
                    let want = mm.get(eq.unknown()[i], eq.unknown()[j]);
                    let got = d.get(i, j);
                    ensure!((got - want).abs() <= 1e-14 * want.abs(), "partitioned matrix with {sym:?} at ({i},{j}): {got} instead of {want}");
                }
            }
            for _ in 0..extra {
                kk_bar.put(0, 0, 1.0).map_err(|e| format!("no room for the {extra} extra entries: {e}"))?;
            }
            match kk_check {
                None => ensure!(eq.np() == 0, "no coupling matrix"),
                Some(kk_check) => {
                    let d = kk_check.as_dense();
                    ensure!(d.dims() == (eq.nu(), eq.np()), "coupling matrix is {:?}", d.dims());
                    for i in 0..eq.nu() {
                        for j in 0..eq.np() {
                            let want = mm.get(eq.unknown()[i], eq.prescribed()[j]);
                            let got = d.get(i, j);
                            ensure!((got - want).abs() <= 1e-14 * want.abs(), "coupling matrix at ({i},{j}): {got} instead of {want}");
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

/// Second difference of nodal values in a ring
fn ring(v: &dyn Fn(usize) -> f64, i: usize, n: usize, h: f64) -> f64 {
    (v((i + n - 1) % n) - 2.0 * v(i) + v((i + 1) % n)) / (h * h)
}

fn one_dim(run: &mut Run) {
    let nmax = run.pick(30, 80);
    run.section("one_dimension", (nmax - 1) * 5, |ctx, k| {
        let (nx, kinds) = (k / 5 + 2, direction(k % 5));
        for (id, dom) in DOMS.iter().enumerate() {
            for ia in 0..4 {
                let alpha = [0.0, 1.0, 7.5, -0.5][ia] * dom.kx / (dom.lx * dom.lx);
                let setup = |mono: Mono| {
                    let mut ebcs = EssentialBcs1d::new();
                    let mut nbcs = NaturalBcs1d::new();
                    for s in 0..2 {
                        let sign = if s == 0 { -1.0 } else { 1.0 };
                        let kx = dom.kx;
                        match kinds[s] {
                            Kind::Value => ebcs.set(SIDES[s], move |x| mono.d(0, x)),
                            Kind::Flux => nbcs.set(SIDES[s], move |x| -kx * mono.d(1, x) * sign),
                            Kind::Ring => ebcs.set_periodic(true),
                        }
                    }
                    let grid = Grid1d::new_uniform(dom.xmin, dom.xmin + dom.lx, nx)?;
                    Fdm1d::new(grid, ebcs, nbcs, dom.kx)
                };
                let free = kinds == [Kind::Flux; 2] || kinds == [Kind::Ring; 2];
                let key = format!("fdm1d/n{nx}/{kinds:?}/d{id}/a{ia}").replace(", ", "-");
                let tol = 1e-11 * (nx * nx) as f64;
                if free && ia == 0 {
                    ctx.case(&format!("{key}/singular"), |t| {
                        t.op();
                        let fdm = setup(Mono { p: 0, o: 0.0, l: 1.0 })?;
                        let _ = fdm.solve_sps(0.0, |_| 1.0);
                        let _ = fdm.solve_lmm(0.0, |_| 1.0);
                        Ok(())
                    });
                    continue;
                }
                if kinds[0] == Kind::Ring {
                    // any nodal values: the operator is the second difference around the ring
                    for unit in 0..nx {
                        ctx.case(&format!("{key}/unit{unit}"), |t| {
                            t.ops(nx);
                            t.state(&(nx, id, ia, unit, 99));
                            let fdm = setup(Mono { p: 0, o: 0.0, l: 1.0 })?;
                            let h = dom.lx / (nx - 1) as f64;
                            let v = |i: usize| if i == unit { 1.0 } else { 0.0 };
                            let source = |x: f64| {
                                let i = ((x - dom.xmin) / h).round() as usize;
                                -dom.kx * ring(&v, i, nx, h) + alpha * v(i)
                            };
                            let want: Vec<f64> = (0..nx).map(v).collect();
                            agrees("sps", &fdm.solve_sps(alpha, source)?, &want, tol)?;
                            agrees("lmm", &fdm.solve_lmm(alpha, source)?, &want, tol)
                        });
                    }
                }
                for p in 0..powers(kinds) {
                    let mono = Mono { p, o: dom.xmin + 0.3 * dom.lx, l: dom.lx };
                    if kinds[0] != Kind::Ring {
                        for symmetric in [false, true] {
                            ctx.case(&format!("{key}/x{p}/s{symmetric}"), |t| {
                                t.ops(nx);
                                let mut fdm = setup(mono)?;
                                fdm.set_solver_options(Genie::Umfpack, symmetric);
                                let source = |x: f64| -dom.kx * mono.d(2, x) + alpha * mono.d(0, x);
                                let mut want = vec![f64::NAN; nx];
                                fdm.for_each_coord(|m, x| want[m] = mono.d(0, x));
                                t.state_f64(&want);
                                agrees("sps", &fdm.solve_sps(alpha, source)?, &want, tol)?;
                                agrees("lmm", &fdm.solve_lmm(alpha, source)?, &want, tol)
                            });
                        }
                    }
                }
                ctx.case(&format!("{key}/operator"), |t| {
                    let fdm = setup(Mono { p: 0, o: 0.0, l: 1.0 })?;
                    let eq = fdm.get_equations();
                    ensure!(fdm.get_dims_sps() == (eq.nu(), eq.np()), "dimensions");
                    ensure!(fdm.get_dims_lmm() == (nx, eq.np(), nx + eq.np()), "dimensions");
                    operators(
                        t,
                        eq,
                        alpha,
                        &|sym, extra| fdm.get_matrices_sps(alpha, extra, sym),
                        &|sym, extra, cc| fdm.get_matrices_lmm(alpha, extra, cc, sym),
                        &|m| {
                            let mut row = vec![0.0; nx];
                            fdm.loop_over_molecule(m, |n, val| row[n] += val);
                            row
                        },
                        &|m| (kinds[0] != Kind::Ring && (m == 0 || m == nx - 1)) as usize,
                    )
                });
            }
        }
    });
    run.section("periodic_ends", 6, |ctx, k| {
        let nx = k + 4;
        ctx.case(&format!("periodic/identification/1d/{nx}"), |t| {
            t.op();
            let mut ebcs = EssentialBcs1d::new();
            ebcs.set_periodic(true);
            let fdm = Fdm1d::new(Grid1d::new_uniform(0.0, 1.0, nx)?, ebcs, NaturalBcs1d::new(), 1.0)?;
            let a = fdm.solve_lmm(1.0, |x| (2.0 * std::f64::consts::PI * x).sin())?;
            ensure!((a[0] - a[nx - 1]).abs() <= 1e-10, "periodic solution is {} at xmin and {} at xmax", a[0], a[nx - 1]);
            Ok(())
        });
    });
}

fn two_dim(run: &mut Run) {
    let nmax = run.pick(7, 12);
    let mut sizes = Vec::new();
    for ny in 2..=nmax {
        for nx in 2..=nmax {
            sizes.push((nx, ny));
        }
    }
    sizes.extend([(2, 33), (33, 2), (3, 20), (20, 3), (5, 65), (65, 5), (16, 17), (17, 16)]);
    if run.thorough() {
        sizes.push((33, 32));
    }
    run.section("two_dimensions", sizes.len() * 25, |ctx, k| {
        let k = sizes.len() * 25 - 1 - k; // the largest come first
        let ((nx, ny), kx, ky) = (sizes[k / 25], direction(k % 5), direction(k / 5 % 5));
        let kinds = [kx[0], kx[1], ky[0], ky[1]];
        let free = kinds.iter().all(|k| *k != Kind::Value);
        for (id, dom) in DOMS.iter().enumerate() {
            let (hx, hy) = (dom.lx / (nx - 1) as f64, dom.ly / (ny - 1) as f64);
            for ia in 0..3 {
                let (ax, ay) = (dom.kx / (dom.lx * dom.lx), dom.ky / (dom.ly * dom.ly));
                let alpha = [0.0, 3.0 * f64::max(ax, ay), -0.5 * f64::min(ax, ay)][ia];
                // node values are a product of a monomial or a unit vector in each direction
                let mono = |p: usize, d: usize| if d == 0 { Mono { p, o: dom.xmin + 0.3 * dom.lx, l: dom.lx } } else { Mono { p, o: dom.ymin + 0.6 * dom.ly, l: dom.ly } };
                let px = if kx[0] == Kind::Ring { nx } else { powers(kx) };
                let py = if ky[0] == Kind::Ring { ny } else { powers(ky) };
                let key = format!("fdm2d/n{nx}x{ny}/{kinds:?}/d{id}/a{ia}").replace(", ", "-");
                let build = |p: usize, q: usize| {
                    // value, first and second derivative (or difference) in each direction
                    let fx = move |n: usize, x: f64| {
                        if kx[0] == Kind::Ring {
                            let i = ((x - dom.xmin) / hx).round() as usize;
                            let v = |i: usize| if i == p { 1.0 } else { 0.0 };
                            if n == 2 {
                                ring(&v, i, nx, hx)
                            } else {
                                v(i)
                            }
                        } else {
                            mono(p, 0).d(n, x)
                        }
                    };
                    let fy = move |n: usize, y: f64| {
                        if ky[0] == Kind::Ring {
                            let i = ((y - dom.ymin) / hy).round() as usize;
                            let v = |i: usize| if i == q { 1.0 } else { 0.0 };
                            if n == 2 {
                                ring(&v, i, ny, hy)
                            } else {
                                v(i)
                            }
                        } else {
                            mono(q, 1).d(n, y)
                        }
                    };
                    let mut ebcs = EssentialBcs2d::new();
                    let mut nbcs = NaturalBcs2d::new();
                    ebcs.set_periodic(kx[0] == Kind::Ring, ky[0] == Kind::Ring);
                    for s in 0..4 {
                        let sign = if s % 2 == 0 { -1.0 } else { 1.0 };
                        match kinds[s] {
                            Kind::Value => ebcs.set(SIDES[s], move |x, y| fx(0, x) * fy(0, y)),
                            Kind::Flux if s < 2 => nbcs.set(SIDES[s], move |x, y| -dom.kx * fx(1, x) * fy(0, y) * sign),
                            Kind::Flux => nbcs.set(SIDES[s], move |x, y| -dom.ky * fx(0, x) * fy(1, y) * sign),
                            Kind::Ring => (),
                        }
                    }
                    let source = move |x: f64, y: f64| -dom.kx * fx(2, x) * fy(0, y) - dom.ky * fx(0, x) * fy(2, y) + alpha * fx(0, x) * fy(0, y);
                    let want = move |x: f64, y: f64| fx(0, x) * fy(0, y);
                    let grid = Grid2d::new_uniform(dom.xmin, dom.xmin + dom.lx, dom.ymin, dom.ymin + dom.ly, nx, ny)?;
                    Ok::<_, &'static str>((Fdm2d::new(grid, ebcs, nbcs, dom.kx, dom.ky)?, source, want))
                };
                if free && ia == 0 {
                    ctx.case(&format!("{key}/singular"), |t| {
                        t.op();
                        let (fdm, _, _) = build(0, 0)?;
                        let _ = fdm.solve_sps(0.0, |_, _| 1.0);
                        let _ = fdm.solve_lmm(0.0, |_, _| 1.0);
                        Ok(())
                    });
                } else {
                    let tol = 1e-11 * (nx * nx + ny * ny) as f64;
                    let some = |p: usize, n: usize| n <= 12 || [0, 1, n / 2, n - 1].contains(&p);
                    for p in (0..px).filter(|p| some(*p, px)) {
                        for q in (0..py).filter(|q| some(*q, py)) {
                            for symmetric in [false, true] {
                                ctx.case(&format!("{key}/x{p}y{q}/s{symmetric}"), |t| {
                                    t.ops(nx * ny);
                                    let (mut fdm, source, value) = build(p, q)?;
                                    fdm.set_solver_options(Genie::Umfpack, symmetric);
                                    let mut want = vec![f64::NAN; nx * ny];
                                    fdm.for_each_coord(|m, x, y| want[m] = value(x, y));
                                    t.state_f64(&want);
                                    agrees("sps", &fdm.solve_sps(alpha, source)?, &want, tol)?;
                                    agrees("lmm", &fdm.solve_lmm(alpha, source)?, &want, tol)
                                });
                            }
                        }
                    }
                }
                // conditions that do not match at the corners: still one answer, with the prescribed values
                ctx.case(&format!("{key}/jump"), |t| {
                    t.ops(2 * nx * ny);
                    if free && ia == 0 {
                        t.trivial();
                        return Ok(());
                    }
                    let mut ebcs = EssentialBcs2d::new();
                    let mut nbcs = NaturalBcs2d::new();
                    ebcs.set_periodic(kx[0] == Kind::Ring, ky[0] == Kind::Ring);
                    for s in 0..4 {
                        let v = (3 * s + 1) as f64;
                        match kinds[s] {
                            Kind::Value => ebcs.set(SIDES[s], move |_, _| v),
                            Kind::Flux => nbcs.set(SIDES[s], move |_, _| v * if s < 2 { dom.kx / dom.lx } else { dom.ky / dom.ly }),
                            Kind::Ring => (),
                        }
                    }
                    let grid = Grid2d::new_uniform(dom.xmin, dom.xmin + dom.lx, dom.ymin, dom.ymin + dom.ly, nx, ny)?;
                    let fdm = Fdm2d::new(grid, ebcs, nbcs, dom.kx, dom.ky)?;
                    let source = |x: f64, y: f64| dom.kx / (dom.lx * dom.lx) * (5.0 + (x - dom.xmin) / dom.lx - 2.0 * (y - dom.ymin) / dom.ly);
                    let a = fdm.solve_sps(alpha, source)?;
                    t.state_f64(a.as_data());
                    let tol = 1e-11 * (nx * nx + ny * ny) as f64;
                    agrees("lmm against sps", &fdm.solve_lmm(alpha, source)?, a.as_data(), tol)?;
                    for m in 0..nx * ny {
                        let (i, j) = (m % nx, m / nx);
                        let on = [i == 0, i == nx - 1, j == 0, j == ny - 1];
                        let vals: Vec<f64> = (0..4).filter(|s| on[*s] && kinds[*s] == Kind::Value).map(|s| (3 * s + 1) as f64).collect();
                        ensure!(vals.is_empty() || vals.contains(&a[m]), "node {m} has the value {} instead of one of {vals:?}", a[m]);
                    }
                    Ok(())
                });
                ctx.case(&format!("{key}/operator"), |t| {
                    let (fdm, _, _) = build(0, 0)?;
                    let eq = fdm.get_equations();
                    let neq = nx * ny;
                    ensure!(fdm.get_dims_sps() == (eq.nu(), eq.np()), "dimensions");
                    ensure!(fdm.get_dims_lmm() == (neq, eq.np(), neq + eq.np()), "dimensions");
                    operators(
                        t,
                        eq,
                        alpha,
                        &|sym, extra| fdm.get_matrices_sps(alpha, extra, sym),
                        &|sym, extra, cc| fdm.get_matrices_lmm(alpha, extra, cc, sym),
                        &|m| {
                            let mut row = vec![0.0; neq];
                            fdm.loop_over_molecule(m, |n, val| row[n] += val);
                            row
                        },
                        &|m| {
                            let (i, j) = (m % nx, m / nx);
                            let x = kx[0] != Kind::Ring && (i == 0 || i == nx - 1);
                            let y = ky[0] != Kind::Ring && (j == 0 || j == ny - 1);
                            x as usize + y as usize
                        },
                    )
                });
            }
        }
    });
    run.section("periodic_ends_2d", 4, |ctx, k| {
        let nx = k + 4;
        ctx.case(&format!("periodic/identification/2d/{nx}"), |t| {
            t.op();
            let mut ebcs = EssentialBcs2d::new();
            ebcs.set_periodic(true, false);
            ebcs.set(Side::Ymin, |_, _| 0.0);
            ebcs.set(Side::Ymax, |_, _| 0.0);
            let fdm = Fdm2d::new(Grid2d::new_uniform(0.0, 1.0, 0.0, 1.0, nx, 4)?, ebcs, NaturalBcs2d::new(), 1.0, 1.0)?;
            let a = fdm.solve_lmm(1.0, |x, _| (2.0 * std::f64::consts::PI * x).sin())?;
            let (l, r) = (a[nx], a[2 * nx - 1]);
            ensure!((l - r).abs() <= 1e-10, "periodic solution is {l} at xmin and {r} at xmax");
            Ok(())
        });
    });
}

/// Grids without uniform spacing are refused
fn refused(run: &mut Run) {
    let menu = [1.0, 1.5, 2.0];
    run.section("spacing", 27 * 27, |ctx, k| {
        let (a, b) = (digits(k % 27, 3, 3), digits(k / 27, 3, 3));
        ctx.case(&format!("spacing/{k}"), |t| {
            t.op();
            let make = |g: &[usize]| {
                let mut x = vec![0.0];
                for i in g {
                    x.push(x[x.len() - 1] + menu[*i]);
                }
                x
            };
            let even = |g: &[usize]| g.iter().all(|i| *i == g[0]);
            let (xx, yy) = (make(&a), make(&b));
            t.state_f64(&xx);
            t.state_f64(&yy);
            let mut e1 = EssentialBcs1d::new();
            e1.set_homogeneous();
            let mut e2 = EssentialBcs2d::new();
            e2.set_homogeneous();
            ensure!(Fdm1d::new(Grid1d::new(&xx)?, e1, NaturalBcs1d::new(), 1.0).is_ok() == even(&a), "grid {xx:?}");
            ensure!(Fdm2d::new(Grid2d::new(&xx, &yy)?, e2, NaturalBcs2d::new(), 1.0, 1.0).is_ok() == (even(&a) && even(&b)), "grid {xx:?} {yy:?}");
            Ok(())
        });
    });
}

pub fn explore(run: &mut Run) {
    run.level("exploration", "every combination of side conditions, grid size, domain, coefficients and exactly represented solution is solved with both strategies and compared with that solution; every assembled matrix is compared with the molecules");
    run.assume("exactness class: tensor products of polynomials of degree at most 2 per direction (3 where both sides of the direction have prescribed values); along periodic directions any nodal values");
    one_dim(run);
    two_dim(run);
    refused(run);
}
