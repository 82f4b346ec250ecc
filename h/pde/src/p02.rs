//! P02: boundary-condition settings and equation numbers

use mc::*;
use russell_lab::Vector;
use russell_pde::*;

#[derive(Clone, Copy, Debug)]
enum Op {
    Ebc(usize, usize),
    Nbc(usize, usize),
    Periodic(bool, bool),
    Homogeneous,
}

/// What the settings amount to
#[derive(Clone, Debug, Default, Hash)]
struct Model {
    ebc: [Option<usize>; 4], // function number; 0 is the zero function
    nbc: [Option<usize>; 4],
    periodic: [bool; 2],
}

impl Model {
    fn apply(&mut self, op: Op, nside: usize) {
        match op {
            Op::Ebc(s, f) => {
                self.ebc[s] = Some(f);
                self.periodic[s / 2] = false;
            }
            Op::Nbc(s, f) => self.nbc[s] = Some(f),
            Op::Periodic(x, y) => {
                for (d, on) in [x, y].into_iter().enumerate().take(nside / 2) {
                    self.periodic[d] = on;
                    if on {
                        self.ebc[2 * d] = None;
                        self.ebc[2 * d + 1] = None;
                    }
                }
            }
            Op::Homogeneous => {
                for s in 0..nside {
                    self.ebc[s] = Some(0);
                }
                self.periodic = [false; 2];
            }
        }
    }
    fn valid(&self, nside: usize) -> bool {
        (0..nside).all(|s| match (self.ebc[s].is_some(), self.nbc[s].is_some(), self.periodic[s / 2]) {
            (e, n, false) => e != n,
            (e, n, true) => !e && !n,
        })
    }
}

fn value(f: usize, x: f64, y: f64) -> f64 {
    let f = f as f64;
    if f == 0.0 {
        0.0
    } else {
        100.0 * f + (1.0 + f) * x + (2.0 - f) * y
    }
}

const SIDES: [Side; 4] = [Side::Xmin, Side::Xmax, Side::Ymin, Side::Ymax];

fn numbers(t: &mut Trace, eq: &EquationHandler, neq: usize, prescribed: &[usize]) -> Outcome {
    t.op();
    ensure!(eq.neq() == neq, "neq is {}", eq.neq());
    ensure!(eq.np() == prescribed.len(), "np is {} instead of {}", eq.np(), prescribed.len());
    ensure!(eq.nu() == neq - prescribed.len(), "nu is {}", eq.nu());
    ensure!(eq.prescribed().len() == eq.np() && eq.unknown().len() == eq.nu(), "list lengths");
    let (mut iu_used, mut ip_used) = (vec![false; eq.nu()], vec![false; eq.np()]);
    for e in 0..neq {
        let p = prescribed.contains(&e);
        ensure!(eq.is_prescribed(e) == p && eq.is_unknown(e) == !p, "equation {e} prescribed: {}", eq.is_prescribed(e));
        let (used, k, list) = if p { (&mut ip_used, eq.ip(e), eq.prescribed()) } else { (&mut iu_used, eq.iu(e), eq.unknown()) };
        ensure!(k < used.len() && !used[k], "local number {k} of equation {e} used twice or out of range");
        used[k] = true;
        ensure!(list[k] == e, "local number {k} leads to {} instead of {e}", list[k]);
        let other = guarded(|| if p { eq.iu(e) } else { eq.ip(e) });
        ensure!(other.is_err(), "equation {e} has a local number on the wrong side: {other:?}");
    }
    Ok(())
}

fn joined(eq: &EquationHandler, join: impl Fn(&Vector, &Vector) -> Vector) -> Outcome {
    let a: Vec<f64> = (0..eq.neq()).map(|e| e as f64 + 0.5).collect();
    let mut a_bar = Vector::new(eq.nu());
    let mut a_check = Vector::new(eq.np());
    for e in 0..eq.neq() {
        if eq.is_unknown(e) {
            a_bar[eq.iu(e)] = a[e];
        } else {
            a_check[eq.ip(e)] = a[e];
        }
    }
    let b = join(&a_bar, &a_check);
    ensure!(b.as_data() == &a, "joined vector is {:?}", b.as_data());
    Ok(())
}

/// Vectors of both strategies against the model: `wn` gives the right-hand side of a flux node
#[allow(clippy::too_many_arguments)]
fn vectors(
    t: &mut Trace,
    what: &str,
    model: &Model,
    nside: usize,
    eq: &EquationHandler,
    place: &dyn Fn(usize) -> (f64, f64, [bool; 4]),
    rhs: &dyn Fn(usize, f64) -> f64,
    sps: &(Vector, Vector, Vector),
    lmm: &(Vector, Vector),
) -> Outcome {
    let neq = eq.neq();
    let mut prescribed = Vec::new();
    for m in 0..neq {
        let (_, _, on) = place(m);
        if (0..nside).any(|s| on[s] && model.ebc[s].is_some()) {
            prescribed.push(m);
        }
    }
    numbers(t, eq, neq, &prescribed).map_err(|e| format!("{what}: {e}"))?;
    let (a_bar, a_check, f_bar) = sps;
    let (aa, ff) = lmm;
    ensure!(a_bar.dim() == eq.nu() && a_check.dim() == eq.np() && f_bar.dim() == eq.nu(), "{what}: partitioned dimensions");
    ensure!(aa.dim() == neq + eq.np() && ff.dim() == neq + eq.np(), "{what}: augmented dimensions");
    for m in 0..neq {
        t.op();
        let (x, y, on) = place(m);
        let mine: Vec<usize> = (0..nside).filter(|s| on[*s]).collect();
        if eq.is_prescribed(m) {
            let allowed: Vec<f64> = mine.iter().filter_map(|s| model.ebc[*s]).map(|f| value(f, x, y)).collect();
            let (a, b) = (a_check[eq.ip(m)], ff[neq + eq.ip(m)]);
            ensure!(allowed.contains(&a), "{what}: prescribed value of node {m} is {a}, one of {allowed:?} expected");
            ensure!(allowed.contains(&b), "{what}: multiplier value of node {m} is {b}, one of {allowed:?} expected");
            ensure!(a == b, "{what}: value of node {m} is {a} or {b} depending on the strategy");
        } else if mine.len() <= 1 {
            let want = match mine.first() {
                Some(s) => model.nbc[*s].map(|f| rhs(*s, value(f, x, y))).unwrap_or(0.0),
                None => 0.0,
            };
            let (a, b) = (f_bar[eq.iu(m)], ff[m]);
            let tol = 1e-12 * f64::max(1.0, want.abs());
            ensure!((a - want).abs() <= tol, "{what}: right-hand side of node {m} is {a} instead of {want}");
            ensure!((b - want).abs() <= tol, "{what}: augmented right-hand side of node {m} is {b} instead of {want}");
        }
    }
    Ok(())
}

fn history_1d(t: &mut Trace, ops: &[Op]) -> Outcome {
    let nx = 4;
    let mut model = Model::default();
    for op in ops {
        model.apply(*op, 2);
    }
    t.state(&model);
    t.ops(ops.len());
    let build = || {
        let mut ebcs = EssentialBcs1d::new();
        let mut nbcs = NaturalBcs1d::new();
        for op in ops {
            match *op {
                Op::Ebc(s, f) => ebcs.set(SIDES[s], move |x| value(f, x, 0.0)),
                Op::Nbc(s, f) => nbcs.set(SIDES[s], move |x| value(f, x, 0.0)),
                Op::Periodic(x, _) => ebcs.set_periodic(x),
                Op::Homogeneous => ebcs.set_homogeneous(),
            }
        }
        (ebcs, nbcs)
    };
    let (ebcs, nbcs) = build();
    let valid = model.valid(2);
    ensure!(ebcs.validate(&nbcs).is_ok() == valid, "validate says {:?} for {model:?}", ebcs.validate(&nbcs));
    let fdm = Fdm1d::new(Grid1d::new_uniform(-1.0, 2.0, nx)?, ebcs, nbcs, 3.0)?;
    let (a, b) = (fdm.solve_sps(1.0, |_| 0.0), fdm.solve_lmm(1.0, |_| 0.0));
    ensure!(a.is_ok() == valid && b.is_ok() == valid, "solver says {:?} and {:?} for {model:?}", a.err(), b.err());
    // the spectral collocation does not know periodic sides
    let spc_valid = valid && !model.periodic[0];
    let (ebcs, nbcs) = build();
    let spc = match (Spc1d::new(-1.0, 2.0, nx, ebcs, nbcs, 3.0), spc_valid) {
        (Ok(spc), true) => spc,
        (Ok(spc), false) => {
            ensure!(spc.solve_sps(1.0, |_| 0.0).is_err(), "spectral collocation accepts {model:?}");
            ensure!(spc.solve_lmm(1.0, |_| 0.0).is_err(), "spectral collocation accepts {model:?}");
            return Ok(());
        }
        (Err(_), false) => return Ok(()),
        (Err(e), true) => fail!("spectral collocation refuses {model:?}: {e}"),
    };
    let on = |m: usize| [m == 0, m == nx - 1, false, false];
    vectors(
        t,
        "fdm",
        &model,
        2,
        fdm.get_equations(),
        &|m| (fdm.get_grid().coord(m), 0.0, on(m)),
        &|_, w| -w / 1.0,
        &fdm.get_vectors_sps(|_| 0.0),
        &fdm.get_vectors_lmm(|_| 0.0),
    )?;
    joined(fdm.get_equations(), |a, b| fdm.get_joined_vector_sps(a, b))?;
    let mut xs = vec![f64::NAN; nx];
    spc.for_each_coord(|m, x| xs[m] = x);
    vectors(
        t,
        "spc",
        &model,
        2,
        spc.get_equations(),
        &|m| (xs[m], 0.0, on(m)),
        &|_, w| w,
        &spc.get_vectors_sps(|_| 0.0),
        &spc.get_vectors_lmm(|_| 0.0),
    )?;
    joined(spc.get_equations(), |a, b| spc.get_joined_vector_sps(a, b))
}

fn history_2d(t: &mut Trace, ops: &[Op], solve: bool) -> Outcome {
    let (nx, ny) = (4, 3);
    let mut model = Model::default();
    for op in ops {
        model.apply(*op, 4);
    }
    t.state(&model);
    t.ops(ops.len());
    let build = || {
        let mut ebcs = EssentialBcs2d::new();
        let mut nbcs = NaturalBcs2d::new();
        for op in ops {
            match *op {
                Op::Ebc(s, f) => ebcs.set(SIDES[s], move |x, y| value(f, x, y)),
                Op::Nbc(s, f) => nbcs.set(SIDES[s], move |x, y| value(f, x, y)),
                Op::Periodic(x, y) => ebcs.set_periodic(x, y),
                Op::Homogeneous => ebcs.set_homogeneous(),
            }
        }
        (ebcs, nbcs)
    };
    let (ebcs, nbcs) = build();
    let valid = model.valid(4);
    ensure!(ebcs.validate(&nbcs).is_ok() == valid, "validate says {:?} for {model:?}", ebcs.validate(&nbcs));
    let spc_valid = valid && !model.periodic[0] && !model.periodic[1];
    if !valid && !solve {
        return Ok(());
    }
    let fdm = Fdm2d::new(Grid2d::new_uniform(-1.0, 2.0, 0.0, 4.0, nx, ny)?, ebcs, nbcs, 3.0, 2.0)?;
    if solve {
        let (a, b) = (fdm.solve_sps(1.0, |_, _| 0.0), fdm.solve_lmm(1.0, |_, _| 0.0));
        ensure!(a.is_ok() == valid && b.is_ok() == valid, "solver says {:?} and {:?} for {model:?}", a.err(), b.err());
    }
    let (ebcs, nbcs) = build();
    let spc = match (Spc2d::new(-1.0, 2.0, 0.0, 4.0, nx, ny, ebcs, nbcs, 3.0, 2.0), spc_valid) {
        (Ok(spc), true) => spc,
        (Ok(spc), false) => {
            if solve {
                ensure!(spc.solve_sps(1.0, |_, _| 0.0).is_err(), "spectral collocation accepts {model:?}");
                ensure!(spc.solve_lmm(1.0, |_, _| 0.0).is_err(), "spectral collocation accepts {model:?}");
            }
            return Ok(());
        }
        (Err(_), false) => return Ok(()),
        (Err(e), true) => fail!("spectral collocation refuses {model:?}: {e}"),
    };
    let on = |m: usize| [m % nx == 0, m % nx == nx - 1, m / nx == 0, m / nx == ny - 1];
    vectors(
        t,
        "fdm",
        &model,
        4,
        fdm.get_equations(),
        &|m| {
            let (x, y) = fdm.get_grid().coord(m);
            (x, y, on(m))
        },
        &|s, w| if s < 2 { -w / 1.0 } else { -w / 2.0 },
        &fdm.get_vectors_sps(|_, _| 0.0),
        &fdm.get_vectors_lmm(|_, _| 0.0),
    )?;
    joined(fdm.get_equations(), |a, b| fdm.get_joined_vector_sps(a, b))?;
    let mut xs = vec![(f64::NAN, f64::NAN); nx * ny];
    spc.for_each_coord(|m, x, y| xs[m] = (x, y));
    vectors(
        t,
        "spc",
        &model,
        4,
        spc.get_equations(),
        &|m| (xs[m].0, xs[m].1, on(m)),
        &|_, w| w,
        &spc.get_vectors_sps(|_, _| 0.0),
        &spc.get_vectors_lmm(|_, _| 0.0),
    )?;
    joined(spc.get_equations(), |a, b| spc.get_joined_vector_sps(a, b))
}

fn settings(run: &mut Run) {
    let mut ops = vec![Op::Periodic(true, false), Op::Periodic(false, false), Op::Homogeneous];
    for s in 0..2 {
        for f in 1..3 {
            ops.push(Op::Ebc(s, f));
            ops.push(Op::Nbc(s, f));
        }
    }
    let lmax = run.pick(4, 5);
    for len in 0..=lmax {
        run.section(&format!("settings_1d_{len}"), pow(ops.len(), len), |ctx, k| {
            let seq: Vec<Op> = digits(k, ops.len(), len).iter().map(|i| ops[*i]).collect();
            ctx.case(&format!("hist1d/{len}/{k}"), |t| history_1d(t, &seq).map_err(|e| format!("{seq:?}: {e}")));
        });
    }
    let mut few = vec![Op::Homogeneous];
    for x in [false, true] {
        for y in [false, true] {
            few.push(Op::Periodic(x, y));
        }
    }
    let mut many = few.clone();
    for s in 0..4 {
        few.push(Op::Ebc(s, 1 + s));
        few.push(Op::Nbc(s, 5 + s));
        for f in 1..3 {
            many.push(Op::Ebc(s, f));
            many.push(Op::Nbc(s, f));
        }
    }
    let deep = run.pick(5, 6);
    for len in 0..=deep {
        run.section(&format!("settings_2d_few_{len}"), pow(few.len(), len), |ctx, k| {
            let seq: Vec<Op> = digits(k, few.len(), len).iter().map(|i| few[*i]).collect();
            ctx.case(&format!("hist2d/few/{len}/{k}"), |t| history_2d(t, &seq, len <= 4).map_err(|e| format!("{seq:?}: {e}")));
        });
    }
    let deep = run.pick(4, 5);
    for len in 1..=deep {
        run.section(&format!("settings_2d_many_{len}"), pow(many.len(), len), |ctx, k| {
            let seq: Vec<Op> = digits(k, many.len(), len).iter().map(|i| many[*i]).collect();
            ctx.case(&format!("hist2d/many/{len}/{k}"), |t| history_2d(t, &seq, false).map_err(|e| format!("{seq:?}: {e}")));
        });
    }
    // each of the 4 sides gets one condition of each kind in every order
    let perms = permutations(4);
    run.section("settings_2d_each_side", perms.len() * 16 * 16, |ctx, k| {
        let order = &perms[k / 256];
        let (kinds, again) = (digits(k % 16, 2, 4), (k / 16) % 16);
        ctx.case(&format!("hist2d/each/{k}"), |t| {
            let mut seq = Vec::new();
            for (pass, subset) in [(1, 15), (2, again)] {
                for s in order {
                    if subset >> s & 1 == 1 {
                        let f = 10 * pass + s;
                        seq.push(if kinds[*s] == 0 { Op::Ebc(*s, f) } else { Op::Nbc(*s, f) });
                    }
                }
            }
            history_2d(t, &seq, true).map_err(|e| format!("{seq:?}: {e}"))
        });
    });
}

fn numbering(run: &mut Run) {
    let lists = |n: usize, mask: usize, order: usize| -> Vec<usize> {
        let mut v: Vec<usize> = (0..n).filter(|e| mask >> e & 1 == 1).collect();
        match order {
            1 => v.reverse(),
            2 => {
                let w = v.clone();
                v.extend(w);
            }
            3 => {
                let k = v.len() / 2;
                v.rotate_left(k);
                if let Some(x) = v.first().copied() {
                    v.push(x);
                }
            }
            _ => (),
        }
        v
    };
    let nmax = run.pick(7, 9);
    for n in 0..=nmax {
        run.section(&format!("pairs_of_{n}"), 1 << n, |ctx, first| {
            for second in 0..1 << n {
                ctx.case(&format!("pairs/{n}/{first}/{second}"), |t| {
                    t.state(&(n, second));
                    let mut eq = EquationHandler::new(n);
                    numbers(t, &eq, n, &[])?;
                    for order in 0..4 {
                        eq.recompute(&lists(n, first, order));
                        numbers(t, &eq, n, &lists(n, first, 0))?;
                        eq.recompute(&lists(n, second, 3 - order));
                        numbers(t, &eq, n, &lists(n, second, 0))?;
                    }
                    Ok(())
                });
            }
        });
    }
    // many equations: none, all, one, all but one, every k-th and the first or last k prescribed
    run.section("larger", 130, |ctx, n| {
        ctx.case(&format!("larger/{n}"), |t| {
            let mut sets: Vec<Vec<usize>> = vec![Vec::new(), (0..n).collect()];
            for k in 1..=n {
                sets.push(vec![k - 1]);
                sets.push((0..n).filter(|i| *i != k - 1).collect());
                sets.push((0..n).step_by(k).collect());
                sets.push((0..k).collect());
                sets.push((k..n).collect());
            }
            let mut eq = EquationHandler::new(n);
            for (j, set) in sets.iter().enumerate() {
                t.state(&(n, j));
                let mut list = set.clone();
                if j % 2 == 1 {
                    list.reverse();
                }
                eq.recompute(&list);
                numbers(t, &eq, n, set)?;
            }
            Ok(())
        });
    });
    let n = run.pick(4, 5);
    run.section("triples", 1 << (3 * n), |ctx, k| {
        ctx.case(&format!("triples/{k}"), |t| {
            let mut eq = EquationHandler::new(n);
            for j in 0..3 {
                let mask = k >> (j * n) & ((1 << n) - 1);
                t.state(&(n, mask));
                eq.recompute(&lists(n, mask, j));
                numbers(t, &eq, n, &lists(n, mask, 0))?;
            }
            Ok(())
        });
    });
}

pub fn explore(run: &mut Run) {
    run.level("model_checking", "every sequence of boundary-condition settings up to the bound is applied to the real objects and to a small model; validation, prescribed nodes, prescribed values, fluxes and numbering are compared afterwards");
    run.assume("a corner shared by two prescribed sides may take the value of either side's function");
    settings(run);
    numbering(run);
}
