// N02: prescribed steps are visited and the run stops where it was told to stop.
use crate::n01::{all_solved, set_control, steps, stops, Me, METHODS, N_CONTROL, TOLS};
use crate::sys::*;
use mc::{digits, ensure, fail, Outcome, Run, Trace};
use russell_lab::Norm;
use russell_nonlin::*;
use russell_sparse::Sym;

pub fn run(r: &mut Run) {
    r.level("model_checking", "all systems x methods x increments x stops x directions x stepsize controls, all patterns of rejected attempts, all graceful-stop points and step limits; every accepted step judged against the branch, the arclength equation and the stop criterion");
    r.assume("increments are small enough for the branch to be followed (no jump to another branch)");
    natural_sequences(r);
    follow_all(r);
    same_branch(r);
    rejections(r);
    graceful(r);
    precise_stop(r);
    refused(r);
}

fn sign(dir: IniDir) -> f64 {
    match dir {
        IniDir::Pos => 1.0,
        IniDir::Neg => -1.0,
    }
}

fn norm(u: &[f64], kind: Norm) -> f64 {
    match kind {
        Norm::Max => u.iter().fold(0.0, |m: f64, v| m.max(v.abs())),
        Norm::One => u.iter().map(|v| v.abs()).sum(),
        _ => u.iter().map(|v| v * v).sum::<f64>().sqrt(),
    }
}

/// How far the stop criterion is exceeded (>= 0 means that it is met)
fn excess(stop: &Stop, accepted: usize, u: &[f64], l: f64) -> f64 {
    match stop {
        Stop::MinCompU(i, v) => v - u[*i],
        Stop::MaxCompU(i, v) => u[*i] - v,
        Stop::MaxNormU(v, k, a, b) => norm(&u[*a..*b], *k) - v,
        Stop::MinLambda(v) => v - l,
        Stop::MaxLambda(v) => l - v,
        Stop::Steps(n) => accepted as f64 - *n as f64,
    }
}

/// The solution on the branch for a given λ, starting from a nearby one (own iterations)
fn newton(kind: Kind, n: usize, u0: &[f64], l: f64) -> Option<Vec<f64>> {
    let mut u = u0.to_vec();
    for _ in 0..60 {
        let g = kind.g(n, &u, l);
        let (a, _) = kind.jac(n, &u, l);
        let d = dense(&a, &g)?;
        let mut size = 0.0;
        for i in 0..n {
            u[i] -= d[i];
            size = f64::max(size, d[i].abs() / (1.0 + u[i].abs()));
        }
        if size < 1e-14 {
            return Some(u);
        }
    }
    if kind.g(n, &u, l).iter().all(|v| v.abs() < 1e-12) {
        Some(u)
    } else {
        None
    }
}

fn trace(tr: &mut Trace, d: &Done) {
    tr.ops(d.args.ev.len());
    for (u, l, _) in &d.points {
        let mut v = u.clone();
        v.push(*l);
        tr.state_f64(&v);
    }
}

// -- natural method: the sequence of points is known in advance -------------------------------

fn natural_sequences(r: &mut Run) {
    let kinds: Vec<(Kind, usize)> = BRANCHES.to_vec();
    let incs: Vec<Ddl> = vec![
        Ddl::Constant(0.1),
        Ddl::Constant(0.0625),
        Ddl::Constant(0.15),
        Ddl::List(vec![0.1]),
        Ddl::List(vec![0.05, 0.1]),
        Ddl::List(vec![0.1, 0.025, 0.05, 0.1, 0.0125]),
        Ddl::List(vec![0.05; 12]),
    ];
    r.section("natural-sequences", kinds.len() * incs.len() * 4, |ctx, it| {
        let (kind, n) = kinds[it % kinds.len()];
        let inc = &incs[(it / kinds.len()) % incs.len()];
        let me = [Me::Natural, Me::NaturalNoPredictor][(it / kinds.len() / incs.len()) % 2];
        let dir = [IniDir::Pos, IniDir::Neg][it / kinds.len() / incs.len() / 2];
        let (u0, l0) = kind.start(n);
        let mut all: Vec<Stop> = (1..8).map(Stop::Steps).collect();
        // targets on and off the visited values, reached exactly
        for k in 1..14 {
            let d = 0.03125 * k as f64;
            all.push(match dir {
                IniDir::Pos => Stop::MaxLambda(l0 + d),
                IniDir::Neg => Stop::MinLambda(l0 - d),
            });
        }
        for i in 0..n {
            for v in [0.033, 0.11, 0.27] {
                all.push(Stop::MaxCompU(i, u0[i] + v));
                all.push(Stop::MinCompU(i, u0[i] - v));
            }
        }
        for k in [Norm::Euc, Norm::Max, Norm::One] {
            for a in 0..n {
                for b in a + 1..n + 1 {
                    for v in [0.071, 0.33, 1.07, 2.03] {
                        all.push(Stop::MaxNormU(v, k, a, b));
                    }
                }
            }
        }
        for (si, stop) in all.iter().enumerate() {
            for limit in [1, 2, 3, 10] {
                let key = format!("{:?}{}/{:?}/{:?}/{:?}/stop{}/limit{}", kind, n, inc, me, dir, si, limit).replace(' ', "");
                ctx.case(&key, |tr| {
                    let mut c = me.config();
                    c.set_n_step_max(limit);
                    let job = Job { u: u0.clone(), l: l0, dir, stop: *stop, ddl: inc.clone(), plan: Plan::default(), quiet: true };
                    // the model
                    let mut want: Vec<(Vec<f64>, f64)> = vec![(u0.clone(), l0)];
                    let n_max = match inc {
                        Ddl::List(v) => v.len(),
                        _ => limit,
                    };
                    for k in 0..n_max {
                        let (u, l) = want.last().unwrap().clone();
                        let h = match inc {
                            Ddl::List(v) => v[k],
                            _ => inc.first(),
                        };
                        let mut l1 = l + sign(dir) * h;
                        match stop {
                            Stop::MinLambda(t) => l1 = f64::max(l1, *t),
                            Stop::MaxLambda(t) => l1 = f64::min(l1, *t),
                            _ => (),
                        }
                        // leaves the range where the branch has no turning points
                        let (lo, hi) = kind.natural_range();
                        if l1 < lo || l1 > hi {
                            tr.trivial();
                            return Ok(());
                        }
                        let u1 = match newton(kind, n, &u, l1) {
                            Some(v) => v,
                            None => {
                                tr.trivial();
                                return Ok(());
                            }
                        };
                        want.push((u1.clone(), l1));
                        let e = excess(stop, k + 1, &u1, l1);
                        if e.abs() < 1e-6 && !matches!(stop, Stop::Steps(_) | Stop::MinLambda(_) | Stop::MaxLambda(_)) {
                            // too close to call
                            tr.trivial();
                            return Ok(());
                        }
                        if e >= -1e-10 {
                            break;
                        }
                    }
                    let mut s = Solver::new(&c, system(kind, n, Sym::No, false))?;
                    let d = crate::sys::run(&mut s, n, &job);
                    trace(tr, &d);
                    ensure!(d.success(), "{}", d.text());
                    ensure!(d.points.len() == want.len(), "{} points, expected {}", d.points.len(), want.len());
                    for (k, (u, l)) in want.iter().enumerate() {
                        ensure!((d.points[k].1 - l).abs() < 1e-13 * (1.0 + l.abs()), "point {}: l = {}, expected {}", k, d.points[k].1, l);
                        for i in 0..n {
                            ensure!((d.points[k].0[i] - u[i]).abs() < 1e-5 * (1.0 + u[i].abs()), "point {}: u[{}] = {}, expected {}", k, i, d.points[k].0[i], u[i]);
                        }
                    }
                    ensure!(d.counts.accepted + 1 == want.len() && d.counts.steps == d.counts.accepted && d.counts.rejected == 0, "counts {:?}", d.counts);
                    all_solved(kind, n, me, &TOLS[0], &job, &d)
                });
            }
        }
    });
}

// -- every step of every method -------------------------------------------------------------

/// Number of failed attempts before each accepted point (from the events)
fn failures_before(d: &Done) -> Vec<usize> {
    let mut v = Vec::new();
    let mut n = 0;
    for e in &d.args.ev {
        match e {
            Ev::Prepare => n += 1,
            Ev::Out(..) => {
                v.push(if v.is_empty() { 0 } else { n - 1 });
                n = 0;
            }
            _ => (),
        }
    }
    v
}

fn advance(kind: Kind, a: (&[f64], f64), b: (&[f64], f64)) -> f64 {
    let mut d = kind.param(b.0, b.1) - kind.param(a.0, a.1);
    if kind == Kind::Circle {
        let pi = std::f64::consts::PI;
        if d > pi {
            d -= 2.0 * pi;
        } else if d < -pi {
            d += 2.0 * pi;
        }
    }
    d
}

/// Judges all steps
pub fn follow(kind: Kind, n: usize, me: Me, limit: usize, m_failure: f64, job: &Job, d: &Done) -> Outcome {
    let sg = sign(job.dir);
    let last = d.points.len() - 1;
    ensure!(d.counts.accepted == last, "{} accepted steps but {} points", d.counts.accepted, last);
    // stop criterion
    for (k, (u, l, _)) in d.points.iter().enumerate().skip(1) {
        let e = excess(&job.stop, k, u, *l);
        if k < last {
            ensure!(e < 1e-9, "went on after the stop criterion was met at point {} of {} (by {:.3e})", k, last, e);
        } else if d.success() {
            let list_done = matches!(&job.ddl, Ddl::List(v) if v.len() == d.counts.steps);
            let limit_hit = !matches!(job.ddl, Ddl::List(_)) && d.counts.steps == limit;
            ensure!(e >= -1.0001e-10 || list_done || limit_hit, "stopped with success at point {} without meeting the criterion (missing {:.3e})", k, -e);
        }
    }
    if d.success() {
        ensure!(last >= 1, "success without any step");
    }
    // all points
    let rej = failures_before(d);
    let mut truncated = false;
    let mut long_jump = false;
    let mut h_prev = d.points[0].2;
    for k in 1..d.points.len() {
        let (u0, l0, h0) = &d.points[k - 1];
        let (u1, l1, _) = &d.points[k];
        let adv = sg * if me.natural() { l1 - l0 } else { advance(kind, (u0, *l0), (u1, *l1)) };
        // (long steps may land on another part of a folded branch)
        long_jump |= !me.natural() && adv <= 0.0 && *h0 > 0.5;
        ensure!(adv > 0.0 || long_jump, "turned back at point {}: {:?} {} -> {:?} {}", k, u0, l0, u1, l1);
        // the prescribed size of this step
        let mut h = match &job.ddl {
            Ddl::Auto(_) => h0 * m_failure.powi(rej[k] as i32),
            Ddl::Constant(_) => h_prev,
            Ddl::List(v) => {
                if me.natural() {
                    v[k - 1]
                } else {
                    v[k - 1] / d.rec_dlds[k - 1].abs()
                }
            }
        };
        if k == 1 {
            // the first increment does not go beyond the target
            let mut first = job.ddl.first();
            match job.stop {
                Stop::MinLambda(t) | Stop::MaxLambda(t) => first = f64::min(first, (t - job.l).abs()),
                _ => (),
            }
            h = if me.natural() { first } else { first / d.rec_dlds[0].abs() };
            h *= m_failure.powi(rej[1] as i32);
        }
        h_prev = h;
        let target = match job.stop {
            Stop::MinLambda(t) | Stop::MaxLambda(t) => Some(t),
            _ => None,
        };
        if me.natural() {
            let mut want = l0 + sg * h;
            if let Some(t) = target {
                if sg * (want - t) >= 0.0 {
                    want = t;
                    truncated = true;
                }
            }
            if rej[k] > 0 && target.is_some() {
                // a rejected attempt may have been cut at the target
                ensure!(sg * (l1 - want) <= 1e-12 * (1.0 + want.abs()) , "point {}: l = {} is beyond {}", k, l1, want);
            } else {
                ensure!((l1 - want).abs() <= 1e-12 * (1.0 + want.abs()), "point {}: l = {}, expected {}", k, l1, want);
            }
        } else {
            let t0: Vec<f64> = (0..n).map(|i| d.rec_duds[i][k - 1]).collect();
            let tl = d.rec_dlds[k - 1];
            // the tangent
            let size = t0.iter().map(|v| v * v).sum::<f64>() + tl * tl;
            ensure!((size - 1.0).abs() < 1e-9, "the tangent at point {} has size {}", k - 1, size.sqrt());
            let (a, gl) = kind.jac(n, u0, *l0);
            for i in 0..n {
                let s: f64 = (0..n).map(|j| a[i][j] * t0[j]).sum::<f64>() + gl[i] * tl;
                let mag: f64 = (0..n).map(|j| a[i][j].abs()).sum::<f64>() + gl[i].abs();
                ensure!(s.abs() <= 2e-2 * mag, "the vector at point {} is not tangent: {:.3e} of {:.3e}", k - 1, s, mag);
            }
            if k == 1 {
                ensure!(tl * sg > 0.0, "the initial tangent has the wrong direction");
            } else {
                let tp: f64 = (0..n).map(|i| d.rec_duds[i][k - 2] * t0[i]).sum::<f64>() + d.rec_dlds[k - 2] * tl;
                ensure!(tp > 0.0, "the tangent turned around at point {}", k - 1);
            }
            // the arclength equation, unless the step was cut at a target
            let pl = l0 + h * tl;
            let mut cut = truncated || (rej[k] > 0);
            match job.stop {
                Stop::MinLambda(t) => cut |= pl <= t,
                Stop::MaxLambda(t) => cut |= pl >= t,
                Stop::MinCompU(i, v) => cut |= u0[i] + h * t0[i] < v,
                Stop::MaxCompU(i, v) => cut |= u0[i] + h * t0[i] > v,
                _ => (),
            }
            let size: f64 = (0..n).map(|i| (u1[i] - u0[i]) * t0[i]).sum::<f64>() + (l1 - l0) * tl;
            if cut {
                truncated = true;
                if let Some(t) = target {
                    if k == last && d.success() && rej[k] == 0 {
                        ensure!((l1 - t).abs() <= 1e-8, "the target {} was missed: {}", t, l1);
                    }
                }
                ensure!(size <= h * (1.0 + 1e-6) + 1e-7 || target.is_some(), "step {} is longer than prescribed: {} > {}", k, size, h);
            } else {
                ensure!((size - h).abs() <= 1e-6 * (1.0 + h), "step {}: the arclength increment is {}, prescribed {}", k, size, h);
            }
            if matches!(job.ddl, Ddl::Auto(_)) {
                truncated = false;
            }
        }
    }
    // recordings
    ensure!(d.rec_l.len() == d.points.len() && d.rec_h.len() == d.points.len() && d.rec_norm.len() == d.points.len(), "recorded lengths differ");
    for k in 0..d.points.len() {
        let e = norm(&d.points[k].0, Norm::Euc);
        ensure!((d.rec_norm[k] - e).abs() <= 1e-14 * (1.0 + e), "norm of point {} is {}, recorded {}", k, e, d.rec_norm[k]);
        ensure!(d.rec_h[k].to_bits() == d.points[k].2.to_bits(), "recorded stepsize of point {} differs", k);
    }
    if me.natural() {
        ensure!(d.rec_dlds.is_empty(), "tangents recorded in the natural method");
    } else {
        ensure!(d.rec_dlds.len() == d.points.len(), "{} tangents for {} points", d.rec_dlds.len(), d.points.len());
    }
    Ok(())
}

/// Must this run succeed?
fn must_succeed(kind: Kind, me: Me, job: &Job) -> bool {
    let first = job.ddl.first();
    if first > 0.1 {
        return false;
    }
    let (lo, hi) = kind.natural_range();
    match job.stop {
        // the branch goes on without end in the arclength method
        Stop::Steps(_) => !me.natural() || !matches!(kind, Kind::Fold | Kind::SCurve | Kind::Circle),
        Stop::MaxLambda(t) => job.dir == IniDir::Pos && t <= hi,
        Stop::MinLambda(t) => job.dir == IniDir::Neg && t >= lo,
        _ => false,
    }
}

/// The branches and the same kinds of branch with more unknowns
pub fn with_larger() -> Vec<(Kind, usize)> {
    let mut v = BRANCHES.to_vec();
    v.extend([(Kind::Line, 9), (Kind::Line, 16), (Kind::Line, 33), (Kind::Line, 65), (Kind::Chain, 9), (Kind::Chain, 16), (Kind::Chain, 33)]);
    v
}

fn follow_all(r: &mut Run) {
    let branches = with_larger();
    let ddls = steps(false);
    let cons: Vec<usize> = r.pick(vec![0, 1, 2, 3, 4, 12], (0..N_CONTROL).filter(|c| *c < 13 || *c > 16).collect());
    let n_items = branches.len() * METHODS.len() * ddls.len() * 2;
    let limits: &[usize] = if r.thorough() { &[1, 2, 3, 7, 120] } else { &[3, 120] };
    r.section("every-step", n_items, |ctx, it| {
        let (kind, n) = branches[it % branches.len()];
        let me = METHODS[(it / branches.len()) % METHODS.len()];
        let di = (it / branches.len() / METHODS.len()) % ddls.len();
        let dir = [IniDir::Pos, IniDir::Neg][it / branches.len() / METHODS.len() / ddls.len()];
        let mut all = stops(kind, n, me, dir);
        for k in [1, 2, 3, 5, 8, 13] {
            all.push(Stop::Steps(k));
        }
        let (u0, l0) = kind.start(n);
        for k in 1..9 {
            let t = 0.06 * k as f64;
            all.push(match dir {
                IniDir::Pos => Stop::MaxLambda(l0 + t * if kind == Kind::Fold { 0.6 } else { 1.0 }),
                IniDir::Neg => Stop::MinLambda(l0 - t),
            });
            for i in (0..n).filter(|i| n <= 5 || [0, n / 2, n - 1].contains(i)) {
                all.push(Stop::MaxCompU(i, u0[i] + t));
                all.push(Stop::MinCompU(i, u0[i] - t));
            }
        }
        for (si, stop) in all.into_iter().enumerate() {
            for &con in &cons {
                if (!ddls[di].auto() || n > 5) && con > 0 {
                    continue;
                }
                for &limit in limits {
                    for m_failure in [0.5, 0.2] {
                        if !ddls[di].auto() && m_failure != 0.5 {
                            continue;
                        }
                        let key = format!("{:?}{}/{:?}/steps{}/{:?}/stop{}/control{}/limit{}/m{}", kind, n, me, di, dir, si, con, limit, m_failure);
                        ctx.case(&key, |tr| {
                            let mut c = me.config();
                            set_control(&mut c, con);
                            c.set_n_step_max(limit).set_m_failure(m_failure);
                            let job = Job { u: u0.clone(), l: l0, dir, stop, ddl: ddls[di].clone(), plan: Plan::default(), quiet: true };
                            let mut s = Solver::new(&c, system(kind, n, Sym::No, true))?;
                            let d = crate::sys::run(&mut s, n, &job);
                            trace(tr, &d);
                            if let Err(e) = &d.res {
                                fail!("{}", e);
                            }
                            if con != 2 && must_succeed(kind, me, &job) {
                                ensure!(d.success() || d.counts.steps == limit, "{} at l = {} after {} steps", d.text(), d.l, d.counts.steps);
                            }
                            if d.points.len() > 0 {
                                follow(kind, n, me, limit, m_failure, &job, &d)?;
                            }
                            Ok(())
                        });
                    }
                }
            }
        }
    });
}

// -- same branch by different linear algebra ---------------------------------------------------

fn same_branch(r: &mut Run) {
    let branches = with_larger();
    let incs = [0.02, 0.05, 0.1, 0.2];
    r.section("same-branch", branches.len() * incs.len() * 2, |ctx, it| {
        let (kind, n) = branches[it % branches.len()];
        let h = incs[(it / branches.len()) % incs.len()];
        let dir = [IniDir::Pos, IniDir::Neg][it / branches.len() / incs.len()];
        let (u0, l0) = kind.start(n);
        for stop in [Stop::Steps(5), Stop::Steps(20), Stop::Steps(40)] {
            for arc in [false, true] {
                ctx.case(&format!("{:?}{}/{}/{:?}/{:?}/arc={}", kind, n, h, dir, stop, arc), |tr| {
                    let mut runs = Vec::new();
                    let mut variants = Vec::new();
                    let list: &[Me] = if arc { &[Me::Bordering, Me::Full] } else { &[Me::Natural, Me::NaturalNoPredictor] };
                    for me in list {
                        for sym in [Sym::No, Sym::YesFull] {
                            if sym == Sym::YesFull && (!kind.symmetric() || *me == Me::Full) {
                                continue;
                            }
                            variants.push((*me, sym));
                        }
                    }
                    for (me, sym) in &variants {
                        let c = me.config();
                        let job = Job { u: u0.clone(), l: l0, dir, stop, ddl: Ddl::Constant(h), plan: Plan::default(), quiet: true };
                        let mut s = Solver::new(&c, system(kind, n, *sym, false))?;
                        let d = crate::sys::run(&mut s, n, &job);
                        trace(tr, &d);
                        runs.push(d);
                    }
                    for i in 1..runs.len() {
                        let (a, b) = (&runs[0], &runs[i]);
                        if a.success() || b.success() {
                            ensure!(a.success() && b.success(), "{:?}: {} but {:?}: {}", variants[0], a.text(), variants[i], b.text());
                            ensure!(a.points.len() == b.points.len(), "{:?}: {} points but {:?}: {}", variants[0], a.points.len(), variants[i], b.points.len());
                            for k in 0..a.points.len() {
                                let (p, q) = (&a.points[k], &b.points[k]);
                                let mut e = (p.1 - q.1).abs() / (1.0 + p.1.abs());
                                for j in 0..n {
                                    e = e.max((p.0[j] - q.0[j]).abs() / (1.0 + p.0[j].abs()));
                                }
                                ensure!(e < 1e-3, "{:?} and {:?} differ by {:.3e} at point {}", variants[0], variants[i], e, k);
                            }
                        }
                    }
                    Ok(())
                });
            }
        }
    });
}

// -- all patterns of failed attempts ----------------------------------------------------------

fn rejections(r: &mut Run) {
    let width = r.pick(8, 11);
    let kinds = [(Kind::Line, 1), (Kind::Chain, 2), (Kind::SCurve, 1)];
    let n_pat = 1usize << width;
    r.section("rejections", kinds.len() * 3 * n_pat, |ctx, it| {
        let (kind, n) = kinds[it % kinds.len()];
        let me = [Me::Natural, Me::Bordering, Me::Full][(it / kinds.len()) % 3];
        let bits = digits(it / kinds.len() / 3, 2, width);
        for cont in [1, 2, 3, 5] {
            for m in [0.5, 0.75] {
                for goal in [1, 2, 4] {
                    let text: String = bits.iter().map(|b| if *b == 1 { 'x' } else { '-' }).collect();
                    ctx.case(&format!("{:?}/{:?}/{}/max{}/m{}/goal{}", kind, me, text, cont, m, goal), |tr| {
                        let mut c = me.config();
                        c.set_n_cont_failure_max(cont).set_m_failure(m).set_n_step_max(60);
                        let (u, l) = kind.start(n);
                        let mut job = Job { u, l, dir: IniDir::Pos, stop: Stop::Steps(goal), ddl: Ddl::Auto(0.05), plan: Plan::default(), quiet: true };
                        job.plan.attempts = (0..width).filter(|i| bits[*i] == 1).collect();
                        let mut s = Solver::new(&c, system(kind, n, Sym::No, true))?;
                        let d = crate::sys::run(&mut s, n, &job);
                        trace(tr, &d);
                        // the model
                        let (mut acc, mut rej, mut in_a_row, mut att) = (0, 0, 0, 0);
                        let mut gave_up = false;
                        while acc < goal {
                            let bad = att < width && bits[att] == 1;
                            att += 1;
                            if bad {
                                in_a_row += 1;
                                if in_a_row >= cont {
                                    gave_up = true;
                                    break;
                                }
                                rej += 1;
                            } else {
                                in_a_row = 0;
                                acc += 1;
                            }
                        }
                        if gave_up {
                            ensure!(d.status() == Some(Status::ContinuedFailure), "{}, expected ContinuedFailure", d.text());
                        } else {
                            ensure!(d.success(), "{}, expected success", d.text());
                            ensure!(d.counts.rejected == rej, "{} rejected, expected {}", d.counts.rejected, rej);
                        }
                        ensure!(d.counts.accepted == acc && d.points.len() == acc + 1, "{} accepted, expected {}", d.counts.accepted, acc);
                        ensure!(d.counts.steps == att && d.args.n_attempt == att, "{} attempts ({} steps counted), expected {}", d.args.n_attempt, d.counts.steps, att);
                        follow(kind, n, me, 60, m, &job, &d)?;
                        // after a rejected attempt the same predictor is used with a smaller step
                        let mut prev: Option<(Vec<f64>, f64)> = None;
                        for e in &d.args.ev {
                            if let Ev::Update(true, u0, u1, l0, l1, act) = e {
                                let step: Vec<f64> = (0..n).map(|i| u1[i] - u0[i]).collect();
                                let dl = l1 - l0;
                                if let Some((ps, pl)) = &prev {
                                    ensure!((dl - m * pl).abs() <= 1e-9 * pl.abs(), "the retry goes {} in l after {}", dl, pl);
                                    if !me.natural() {
                                        for i in 0..n {
                                            ensure!((step[i] - m * ps[i]).abs() <= 1e-9 * (1e-3 + ps[i].abs()), "the retry goes {} in u[{}] after {}", step[i], i, ps[i]);
                                        }
                                    }
                                }
                                prev = if *act == Act::Error { Some((step, dl)) } else { None };
                            }
                        }
                        Ok(())
                    });
                }
            }
        }
    });
}

// -- stopping from the callback ----------------------------------------------------------------

fn graceful(r: &mut Run) {
    let ddls = steps(false);
    r.section("graceful-stop", BRANCHES.len() * METHODS.len() * ddls.len(), |ctx, it| {
        let (kind, n) = BRANCHES[it % BRANCHES.len()];
        let me = METHODS[(it / BRANCHES.len()) % METHODS.len()];
        let di = it / BRANCHES.len() / METHODS.len();
        for k in 0..7 {
            for what in [Act::Stop, Act::Error] {
                ctx.case(&format!("{:?}{}/{:?}/steps{}/call{}/{:?}", kind, n, me, di, k, what), |tr| {
                    let c = me.config();
                    let (u, l) = kind.start(n);
                    let base = Job { u, l, dir: IniDir::Pos, stop: Stop::Steps(5), ddl: ddls[di].clone(), plan: Plan::default(), quiet: true };
                    let mut job = base.clone();
                    job.plan.out = vec![(k, what, false)];
                    let mut s = Solver::new(&c, system(kind, n, Sym::No, false))?;
                    let a = crate::sys::run(&mut s, n, &base);
                    let mut s = Solver::new(&c, system(kind, n, Sym::No, false))?;
                    let b = crate::sys::run(&mut s, n, &job);
                    trace(tr, &b);
                    let m = usize::min(a.points.len(), k + 1);
                    ensure!(b.points.len() == m, "{} points, expected {}", b.points.len(), m);
                    for i in 0..m {
                        ensure!(a.points[i].1.to_bits() == b.points[i].1.to_bits() && a.points[i].0 == b.points[i].0, "point {} differs", i);
                    }
                    if k < a.points.len() {
                        match what {
                            Act::Stop => {
                                ensure!(b.success(), "{} after a graceful stop", b.text());
                                ensure!(b.rec_l.len() == m, "{} recorded values for {} points after a graceful stop", b.rec_l.len(), m);
                            }
                            _ => ensure!(matches!(&b.res, Ok(Err(e)) if e == FAIL), "{} instead of the error of the callback", b.text()),
                        }
                        let (u, l, _) = &b.points[m - 1];
                        ensure!(*u == b.u && *l == b.l, "the state is not that of the last point");
                    } else {
                        ensure!(a.text() == b.text(), "{} instead of {}", b.text(), a.text());
                    }
                    Ok(())
                });
            }
        }
    });
}

// -- precise stop --------------------------------------------------------------------------------

fn precise_stop(r: &mut Run) {
    let cons: Vec<usize> = r.pick(vec![0, 1, 2, 3, 4, 12], (0..N_CONTROL).filter(|c| *c < 13 || *c > 16).collect());
    let targets = r.pick(12, 40);
    r.section("precise-stop", BRANCHES.len() * METHODS.len() * 2, |ctx, it| {
        let (kind, n) = BRANCHES[it % BRANCHES.len()];
        let me = METHODS[(it / BRANCHES.len()) % METHODS.len()];
        let dir = [IniDir::Pos, IniDir::Neg][it / BRANCHES.len() / METHODS.len()];
        let (u0, l0) = kind.start(n);
        for i in 0..n {
            for k in 1..targets + 1 {
                for up in [true, false] {
                    let v = 0.7 / targets as f64 * k as f64;
                    let stop = if up { Stop::MaxCompU(i, u0[i] + v) } else { Stop::MinCompU(i, u0[i] - v) };
                    for &con in &cons {
                        for h in [0.05, 0.2] {
                            ctx.case(&format!("{:?}{}/{:?}/{:?}/{:?}/control{}/{}", kind, n, me, dir, stop, con, h).replace(' ', ""), |tr| {
                                let mut c = me.config();
                                set_control(&mut c, con);
                                c.set_n_step_max(80).set_enable_precise_stop_u_comp(true).set_n_cont_failure_max(40);
                                let job = Job { u: u0.clone(), l: l0, dir, stop, ddl: Ddl::Auto(h), plan: Plan::default(), quiet: true };
                                let mut s = Solver::new(&c, system(kind, n, Sym::No, true))?;
                                let d = crate::sys::run(&mut s, n, &job);
                                trace(tr, &d);
                                if let Err(e) = &d.res {
                                    fail!("{}", e);
                                }
                                for (j, (u, l, _)) in d.points.iter().enumerate().skip(1) {
                                    let e = excess(&stop, j, u, *l);
                                    ensure!(e < 1.0001e-10, "point {} is beyond the target by {:.3e} ({})", j, e, d.text());
                                }
                                follow(kind, n, me, 80, 0.5, &job, &d)
                            });
                        }
                    }
                }
            }
        }
    });
}

// -- criteria that make no sense at the start --------------------------------------------------------

fn refused(r: &mut Run) {
    let ddls = [Ddl::Auto(0.05), Ddl::Constant(0.1), Ddl::List(vec![0.1, 0.05])];
    r.section("refused", BRANCHES.len() * METHODS.len() * ddls.len() * 2, |ctx, it| {
        let (kind, n) = BRANCHES[it % BRANCHES.len()];
        let me = METHODS[(it / BRANCHES.len()) % METHODS.len()];
        let di = (it / BRANCHES.len() / METHODS.len()) % ddls.len();
        let dir = [IniDir::Pos, IniDir::Neg][it / BRANCHES.len() / METHODS.len() / ddls.len()];
        let (u0, l0) = kind.start(n);
        // (stop criterion, whether it must be refused)
        let mut all = vec![(Stop::Steps(0), true), (Stop::Steps(1), false)];
        let around = |v: f64| [v - 1.0, v - 1e-3, v - 1e-8, v.next_down(), v, v.next_up(), v + 1e-8, v + 1e-3, v + 1.0];
        for v in around(l0) {
            all.push((Stop::MinLambda(v), v >= l0 || (v - l0).abs() <= 1e-10));
            all.push((Stop::MaxLambda(v), v <= l0 || (v - l0).abs() <= 1e-10));
        }
        for i in 0..n + 2 {
            for v in around(if i < n { u0[i] } else { 0.0 }) {
                all.push((Stop::MinCompU(i, v), i >= n || v >= u0[i]));
                all.push((Stop::MaxCompU(i, v), i >= n || v <= u0[i]));
            }
        }
        for a in 0..n + 2 {
            for b in 0..n + 2 {
                for v in [-1.0, 0.0, 100.0] {
                    all.push((Stop::MaxNormU(v, Norm::Euc, a, b), a >= b || b > n || v <= 0.0));
                }
            }
        }
        for (si, (stop, bad)) in all.iter().enumerate() {
            ctx.case(&format!("{:?}{}/{:?}/steps{}/{:?}/stop{}", kind, n, me, di, dir, si), |tr| {
                let mut c = me.config();
                c.set_n_step_max(3);
                let job = Job { u: u0.clone(), l: l0, dir, stop: *stop, ddl: ddls[di].clone(), plan: Plan::default(), quiet: true };
                let mut s = Solver::new(&c, system(kind, n, Sym::No, true))?;
                let d = crate::sys::run(&mut s, n, &job);
                trace(tr, &d);
                match (&d.res, bad) {
                    (Err(e), _) => fail!("{}", e),
                    (Ok(Ok(status)), true) => fail!("{:?} with {:?} at the start ({:?}, {})", status, stop, u0, l0),
                    (Ok(Err(_)), true) => {
                        ensure!(d.u == u0 && d.l == l0, "refused, but the state has changed to ({:?}, {})", d.u, d.l);
                        ensure!(d.args.n_gg == 0 && d.args.n_out == 0, "refused after calling the user functions");
                    }
                    (Ok(Err(e)), false) => fail!("{} with {:?} at the start ({:?}, {})", e, stop, u0, l0),
                    (Ok(Ok(_)), false) => (),
                }
                Ok(())
            });
        }
        for (k, ddl) in [Ddl::Auto(0.0), Ddl::Auto(-0.1), Ddl::Auto(1e-10), Ddl::Constant(0.0), Ddl::Constant(-0.1), Ddl::List(vec![0.0, 0.1]), Ddl::List(vec![-0.1, 0.1])].iter().enumerate() {
            if di > 0 {
                break;
            }
            ctx.case(&format!("{:?}{}/{:?}/{:?}/increment{}", kind, n, me, dir, k), |tr| {
                let c = me.config();
                let job = Job { u: u0.clone(), l: l0, dir, stop: Stop::Steps(2), ddl: ddl.clone(), plan: Plan::default(), quiet: true };
                let mut s = Solver::new(&c, system(kind, n, Sym::No, true))?;
                let d = crate::sys::run(&mut s, n, &job);
                trace(tr, &d);
                ensure!(matches!(&d.res, Ok(Err(_))), "{} with {:?}", d.text(), ddl);
                ensure!(d.u == u0 && d.l == l0, "refused, but the state has changed");
                Ok(())
            });
        }
        // an increment that makes no sense later in the list, and starts of the wrong length
        for (k, bad) in [0.0, -0.05, 1e-11, 1e-10].iter().enumerate() {
            for at in 1..4 {
                if di > 0 {
                    break;
                }
                ctx.case(&format!("{:?}{}/{:?}/{:?}/listed{}at{}", kind, n, me, dir, k, at), |tr| {
                    let mut list = vec![0.05; 4];
                    list[at] = *bad;
                    let job = Job { u: u0.clone(), l: l0, dir, stop: Stop::Steps(10), ddl: Ddl::List(list), plan: Plan::default(), quiet: true };
                    let c = me.config();
                    let mut s = Solver::new(&c, system(kind, n, Sym::No, true))?;
                    let d = crate::sys::run(&mut s, n, &job);
                    trace(tr, &d);
                    match &d.res {
                        Err(e) => fail!("{}", e),
                        Ok(Ok(status)) => ensure!(status.failure(), "{:?} although increment {} is {}", status, at, bad),
                        Ok(Err(_)) => (),
                    }
                    // only the increments before it were used
                    let steps = s.get_stats().n_accepted;
                    ensure!(steps <= at, "{} steps were accepted, the increment {} is {}", steps, at, bad);
                    Ok(())
                });
            }
        }
        for len in 0..n + 3 {
            if len == n || di > 0 {
                continue;
            }
            ctx.case(&format!("{:?}{}/{:?}/{:?}/length{}", kind, n, me, dir, len), |tr| {
                let job = Job { u: vec![0.5; len], l: l0, dir, stop: Stop::Steps(2), ddl: ddls[0].clone(), plan: Plan::default(), quiet: true };
                let c = me.config();
                let mut s = Solver::new(&c, system(kind, n, Sym::No, true))?;
                let d = crate::sys::run(&mut s, n, &job);
                trace(tr, &d);
                ensure!(matches!(&d.res, Ok(Err(_))), "{} with {} values at the start", d.text(), len);
                ensure!(d.u == job.u && d.l == l0 && d.args.n_gg == 0 && d.args.n_out == 0, "refused, but something has changed or was called");
                Ok(())
            });
        }
    });
}
