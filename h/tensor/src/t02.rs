//! T02: products equal the full index sums

use crate::reft::*;
use mc::*;
use russell_tensor::*;

const TOL: f64 = 1e-13;
const ALPHAS: [f64; 4] = [1.0, -2.5, 0.5, 0.0];

/// Basis of the representation followed by full tensors
fn family(rep: Rep) -> Vec<A2> {
    let mut v = basis(rep);
    v.extend(dense(rep));
    v.push(zero2());
    v
}

/// Basis of the space of fourth-order tensors of a representation followed by full ones
fn family4(rep: Rep) -> Vec<A4> {
    let b = basis(rep);
    let mut v = Vec::new();
    for x in &b {
        for y in &b {
            v.push(make4(|i, j, k, l| x[i][j] * y[k][l]));
        }
    }
    let d = dense(rep);
    for s in 0..2 {
        v.push(make4(|i, j, k, l| {
            (0..3).map(|r| d[r][i][j] * d[(r + 1 + s) % 3][k][l] * (1.0 + r as f64)).sum()
        }));
    }
    v
}

fn t4(a: &A4, rep: Rep) -> Result<Tensor4, String> {
    Ok(Tensor4::from_std_array(a, rep)?)
}

/// Arguments must come back exactly as they went in
fn kept(before: &[f64], after: &[f64]) -> Outcome {
    ensure!(before == after, "an input was changed");
    Ok(())
}

fn raw2(t: &Tensor2) -> Vec<f64> {
    (0..t.dim()).map(|m| t.get(m)).collect()
}

fn raw4(t: &Tensor4) -> Vec<f64> {
    (0..t.dim() * t.dim()).map(|m| t.get(m / t.dim(), m % t.dim())).collect()
}

fn second(run: &mut Run) {
    run.section("T2 x T2", 3 * 13 * 13, |ctx, w| {
        let rep = REPS[w % 3];
        let f = family(rep);
        let (p, q) = (w / 3 % 13, w / 39);
        if p >= f.len() || q >= f.len() {
            return;
        }
        for (ia, &alpha) in ALPHAS.iter().enumerate() {
            for loops in 0..2 {
                ctx.case(format!("{rep:?} {p} {q} alpha={alpha} loops={loops}"), |t| {
                    let (xa, xb) = (&f[p], &f[q]);
                    let (mut a, mut b) = (t2(xa, rep)?, t2(xb, rep)?);
                    a.use_loops = loops == 1;
                    b.use_loops = loops == 1;
                    let (ra, rb) = (raw2(&a), raw2(&b));
                    let beta = ALPHAS[(ia + 1) % 4];
                    t.op();
                    // sum
                    let mut c = dirty2(rep, f64::NAN);
                    t2_add(&mut c, alpha, &a, beta, &b);
                    same2(&std2(&c), &axpy2(&scale2(alpha, xa), beta, xb), TOL).map_err(|e| format!("t2_add {e}"))?;
                    // inner product
                    let s = t2_ddot_t2(&a, &b);
                    ensure!(close(s, ddot2(xa, xb), TOL), "t2_ddot_t2 gives {s}");
                    // single contraction
                    let mut c = dirty2(Rep::General, f64::NAN);
                    t2_dot_t2(&mut c, &a, &b);
                    same2(&std2(&c), &mul2(xa, xb), TOL).map_err(|e| format!("t2_dot_t2 {e}"))?;
                    // dyadic
                    let mut d = dirty4(rep, f64::NAN);
                    t2_dyad_t2(&mut d, alpha, &a, &b);
                    let dy = make4(|i, j, k, l| alpha * xa[i][j] * xb[k][l]);
                    same4(&std4(&d), &dy, TOL).map_err(|e| format!("t2_dyad_t2 {e}"))?;
                    let base = &family4(rep)[rep.dim() * rep.dim()];
                    let mut d = t4(base, rep)?;
                    t2_dyad_t2_update(&mut d, alpha, &a, &b);
                    same4(&std4(&d), &make4(|i, j, k, l| base[i][j][k][l] + dy[i][j][k][l]), TOL)
                        .map_err(|e| format!("t2_dyad_t2_update {e}"))?;
                    // overbar and underbar dyadic
                    let mut d = dirty4(Rep::General, f64::NAN);
                    d.use_loops = loops == 1;
                    t2_odyad_t2(&mut d, alpha, &a, &b);
                    same4(&std4(&d), &make4(|i, j, k, l| alpha * xa[i][k] * xb[j][l]), TOL)
                        .map_err(|e| format!("t2_odyad_t2 {e}"))?;
                    let mut d = dirty4(Rep::General, f64::NAN);
                    d.use_loops = loops == 1;
                    t2_udyad_t2(&mut d, alpha, &a, &b);
                    same4(&std4(&d), &make4(|i, j, k, l| alpha * xa[i][l] * xb[j][k]), TOL)
                        .map_err(|e| format!("t2_udyad_t2 {e}"))?;
                    // self-sum and quad-sum dyadic
                    let mut d = dirty4(Rep::Symmetric, f64::NAN);
                    d.use_loops = loops == 1;
                    t2_qsd_t2(&mut d, alpha, &a, &b);
                    let qsd = make4(|i, j, k, l| {
                        alpha
                            * (xa[i][k] * xb[j][l] + xa[i][l] * xb[j][k] + xb[i][k] * xa[j][l] + xb[i][l] * xa[j][k])
                    });
                    same4(&std4(&d), &qsd, TOL).map_err(|e| format!("t2_qsd_t2 {e}"))?;
                    // polarisation: the sum of two basis tensors decides the quadratic operation
                    let xs = axpy2(xa, 1.0, xb);
                    let sum = t2(&xs, rep)?;
                    let mut d = dirty4(Rep::Symmetric, f64::NAN);
                    d.use_loops = loops == 1;
                    t2_ssd(&mut d, alpha, &sum);
                    same4(&std4(&d), &make4(|i, j, k, l| alpha * (xs[i][k] * xs[j][l] + xs[i][l] * xs[j][k])), TOL)
                        .map_err(|e| format!("t2_ssd {e}"))?;
                    kept(&ra, &raw2(&a))?;
                    kept(&rb, &raw2(&b))?;
                    t.state(&(rep.dim(), p, q, ia, loops));
                    Ok(())
                });
            }
        }
    });
}

fn first(run: &mut Run) {
    let n = 5;
    run.section("T1 x T1, T1 x T2", pow(n, 3), |ctx, w| {
        let d = digits(w, n, 3);
        let u: Vec<f64> = d.iter().map(|x| *x as f64 - 2.0).collect();
        let tu = Tensor1::from(&u);
        for z in 0..pow(n, 3) {
            let e = digits(z, n, 3);
            for rep in REPS {
                ctx.case(format!("{rep:?} u={d:?} v={e:?}"), |t| {
                    t.op();
                    let v: Vec<f64> = e.iter().map(|x| *x as f64 - 2.0).collect();
                    let tv = Tensor1::from(&v);
                    let mut a = zero2();
                    for i in 0..3 {
                        for j in 0..3 {
                            a[i][j] = u[i] * v[j];
                        }
                    }
                    let mut x = dirty2(rep, f64::NAN);
                    let alpha = ALPHAS[(w + z) % 4];
                    let r = t1_dyad_t1(&mut x, alpha, &tu, &tv);
                    let ok = fits(&a, rep);
                    ensure!(r.is_ok() == ok, "t1_dyad_t1 gives {r:?} for components {a:?}");
                    if ok {
                        same2(&std2(&x), &scale2(alpha, &a), TOL).map_err(|e| format!("t1_dyad_t1 {e}"))?;
                    }
                    t.state(&(rep.dim(), w, z));
                    Ok(())
                });
            }
        }
        for rep in REPS {
            for (k, a) in family(rep).iter().enumerate() {
                for alpha in ALPHAS {
                    ctx.case(format!("{rep:?} u={d:?} tensor {k} alpha={alpha}"), |t| {
                        t.op();
                        let x = t2(a, rep)?;
                        let (mut l, mut r) = (Tensor1::from(&[f64::NAN; 3]), Tensor1::from(&[f64::NAN; 3]));
                        t2_dot_t1(&mut r, alpha, &x, &tu);
                        t1_dot_t2(&mut l, alpha, &tu, &x);
                        for i in 0..3 {
                            let wr = alpha * (0..3).map(|j| a[i][j] * u[j]).sum::<f64>();
                            let wl = alpha * (0..3).map(|j| u[j] * a[j][i]).sum::<f64>();
                            ensure!(close(r.get(i), wr, TOL), "t2_dot_t1 {i} is {} instead of {wr}", r.get(i));
                            ensure!(close(l.get(i), wl, TOL), "t1_dot_t2 {i} is {} instead of {wl}", l.get(i));
                        }
                        t.state(&(rep.dim(), w, k, hash_f64(&[alpha])));
                        Ok(())
                    });
                }
            }
        }
    });
}

fn third(run: &mut Run) {
    run.section("T3", 3 * 2 * 13 * 3, |ctx, w| {
        let rep = REPS[w % 3];
        let case_a = w / 3 % 2 == 0;
        let f = family(rep);
        let p = w / 6 % 13;
        let k0 = w / 78;
        if p >= f.len() {
            return;
        }
        let build = |p: usize, k0: usize| {
            let mut a = [[[0.0; 3]; 3]; 3];
            for i in 0..3 {
                for j in 0..3 {
                    if case_a {
                        a[i][j][k0] = f[p][i][j];
                        a[i][j][(k0 + 1) % 3] = if p >= rep.dim() { 2.0 * f[0][i][j] } else { 0.0 };
                    } else {
                        a[k0][i][j] = f[p][i][j];
                        a[(k0 + 1) % 3][i][j] = if p >= rep.dim() { 2.0 * f[0][i][j] } else { 0.0 };
                    }
                }
            }
            a
        };
        let a = build(p, k0);
        for q in 0..f.len() {
            for k1 in 0..3 {
                for (ia, &alpha) in ALPHAS.iter().enumerate() {
                    ctx.case(format!("{rep:?} case_a={case_a} {p},{k0} {q},{k1} alpha={alpha}"), |t| {
                        t.op();
                        let beta = ALPHAS[(ia + 1) % 4];
                        let b = build(q, k1);
                        let ta = Tensor3::from_std_array(&a, rep, case_a)?;
                        let tb = Tensor3::from_std_array(&b, rep, case_a)?;
                        let mut c = Tensor3::new(rep, case_a);
                        for m in 0..c.dims().0 {
                            for n in 0..c.dims().1 {
                                c.set(m, n, f64::NAN);
                            }
                        }
                        t3_add(&mut c, alpha, &ta, beta, &tb);
                        let mut s = a;
                        for i in 0..3 {
                            for j in 0..3 {
                                for k in 0..3 {
                                    s[i][j][k] = alpha * a[i][j][k] + beta * b[i][j][k];
                                }
                            }
                        }
                        same3(&std3(&c), &s, TOL).map_err(|e| format!("t3_add {e}"))?;
                        if case_a {
                            let mut u = [0.0, 0.0, 0.0];
                            u[k1] = 2.0;
                            u[(k1 + 1) % 3] = q as f64 - 3.0;
                            let mut x = dirty2(rep, f64::NAN);
                            t3_dot_t1(&mut x, alpha, &ta, &Tensor1::from(&u));
                            let mut want = zero2();
                            for i in 0..3 {
                                for j in 0..3 {
                                    want[i][j] = alpha * (0..3).map(|k| a[i][j][k] * u[k]).sum::<f64>();
                                }
                            }
                            same2(&std2(&x), &want, TOL).map_err(|e| format!("t3_dot_t1 {e}"))?;
                            let mut y = Tensor1::new();
                            ensure!(
                                guarded(|| t3_ddot_t2(&mut y, alpha, &ta, &x)).is_err(),
                                "t3_ddot_t2 accepts case A"
                            );
                        } else {
                            let x = t2(&f[q], rep)?;
                            let mut y = Tensor1::from(&[f64::NAN; 3]);
                            t3_ddot_t2(&mut y, alpha, &ta, &x);
                            for i in 0..3 {
                                let mut s = 0.0;
                                for j in 0..3 {
                                    for k in 0..3 {
                                        s += a[i][j][k] * f[q][j][k];
                                    }
                                }
                                ensure!(
                                    close(y.get(i), alpha * s, TOL),
                                    "t3_ddot_t2 {i} is {} instead of {}",
                                    y.get(i),
                                    alpha * s
                                );
                            }
                            let mut z = Tensor2::new(rep);
                            ensure!(guarded(|| t3_dot_t1(&mut z, alpha, &ta, &y)).is_err(), "t3_dot_t1 accepts case B");
                        }
                        same3(&std3(&ta), &a, TOL)?;
                        t.state(&(rep.dim(), case_a, p, k0, q, k1, ia));
                        Ok(())
                    });
                }
            }
        }
    });
}

fn fourth(run: &mut Run) {
    run.section("T4 x T2", 3 * 83, |ctx, w| {
        let rep = REPS[w % 3];
        let f4 = family4(rep);
        let f = family(rep);
        let p = w / 3;
        if p >= f4.len() {
            return;
        }
        let d = &f4[p];
        for q in 0..f.len() {
            for (ia, &alpha) in ALPHAS.iter().enumerate() {
                for r in 0..f.len() {
                    ctx.case(format!("{rep:?} D{p} a{q} b{r} alpha={alpha}"), |t| {
                        t.op();
                        let beta = ALPHAS[(ia + r) % 4];
                        let td = t4(d, rep)?;
                        let rd = raw4(&td);
                        let (a, b) = (&f[q], &f[r]);
                        let (ta, tb) = (t2(a, rep)?, t2(b, rep)?);
                        let da = ddot42(d, a);
                        let ad = ddot24(a, d);
                        let mut x = dirty2(rep, f64::NAN);
                        t4_ddot_t2(&mut x, alpha, &td, &ta);
                        same2(&std2(&x), &scale2(alpha, &da), TOL).map_err(|e| format!("t4_ddot_t2 {e}"))?;
                        let mut x = tb.clone();
                        t4_ddot_t2_update(&mut x, alpha, &td, &ta, beta);
                        same2(&std2(&x), &axpy2(&scale2(alpha, &da), beta, b), TOL)
                            .map_err(|e| format!("t4_ddot_t2_update {e}"))?;
                        let mut x = dirty2(rep, f64::NAN);
                        t2_ddot_t4(&mut x, alpha, &ta, &td);
                        same2(&std2(&x), &scale2(alpha, &ad), TOL).map_err(|e| format!("t2_ddot_t4 {e}"))?;
                        let s = t2_ddot_t4_ddot_t2(&ta, &td, &tb);
                        ensure!(close(s, ddot2(&ad, b), TOL), "t2_ddot_t4_ddot_t2 gives {s}");
                        kept(&rd, &raw4(&td))?;
                        t.state(&(rep.dim(), p, q, r, ia));
                        Ok(())
                    });
                }
            }
        }
    });
    run.section("T4 x T4", 3 * 83, |ctx, w| {
        let rep = REPS[w % 3];
        let f4 = family4(rep);
        let p = w / 3;
        if p >= f4.len() {
            return;
        }
        let c = &f4[p];
        for (q, d) in f4.iter().enumerate() {
            ctx.case(format!("{rep:?} {p} {q}"), |t| {
                let cd = make4(|i, j, k, l| {
                    let mut s = 0.0;
                    for m in 0..3 {
                        for n in 0..3 {
                            s += c[i][j][m][n] * d[m][n][k][l];
                        }
                    }
                    s
                });
                let (tc, td) = (t4(c, rep)?, t4(d, rep)?);
                for (ia, &alpha) in ALPHAS.iter().enumerate() {
                    t.op();
                    let beta = ALPHAS[(ia + 1) % 4];
                    let mut e = dirty4(rep, f64::NAN);
                    t4_add(&mut e, alpha, &tc, beta, &td);
                    same4(&std4(&e), &make4(|i, j, k, l| alpha * c[i][j][k][l] + beta * d[i][j][k][l]), TOL)
                        .map_err(|e| format!("t4_add {e}"))?;
                    let mut e = dirty4(rep, 777.0);
                    t4_ddot_t4(&mut e, alpha, &tc, &td);
                    same4(&std4(&e), &make4(|i, j, k, l| alpha * cd[i][j][k][l]), TOL)
                        .map_err(|e| format!("t4_ddot_t4 {e}"))?;
                    let base = &f4[rep.dim() * rep.dim() + 1];
                    let mut e = t4(base, rep)?;
                    t4_ddot_t4_update(&mut e, alpha, &tc, &td, beta);
                    same4(&std4(&e), &make4(|i, j, k, l| alpha * cd[i][j][k][l] + beta * base[i][j][k][l]), TOL)
                        .map_err(|e| format!("t4_ddot_t4_update {e}"))?;
                }
                same4(&std4(&tc), c, TOL)?;
                same4(&std4(&td), d, TOL)?;
                t.state(&(rep.dim(), p, q));
                Ok(())
            });
        }
    });
    // quadratic in D: sums of two basis tensors decide it
    run.section("T4:T2 x T2:T4", 3 * 83, |ctx, w| {
        let rep = REPS[w % 3];
        let f4 = family4(rep);
        let f = family(rep);
        let p = w / 3;
        if p >= f4.len() {
            return;
        }
        for q in p..f4.len() {
            let d = make4(|i, j, k, l| f4[p][i][j][k][l] + f4[q][i][j][k][l]);
            for a in 0..f.len() {
                for b in 0..f.len() {
                    ctx.case(format!("{rep:?} D{p}+D{q} a{a} b{b}"), |t| {
                        t.op();
                        let (alpha, beta) = (ALPHAS[(p + a) % 4], ALPHAS[(q + b + 1) % 4]);
                        let td = t4(&d, rep)?;
                        let mut e = dirty4(rep, f64::NAN);
                        t4_ddot_t2_dyad_t2_ddot_t4(&mut e, alpha, &td, beta, &t2(&f[a], rep)?, &t2(&f[b], rep)?);
                        let (x, y) = (ddot42(&d, &f[a]), ddot24(&f[b], &d));
                        same4(&std4(&e), &make4(|i, j, k, l| alpha * d[i][j][k][l] + beta * x[i][j] * y[k][l]), TOL)?;
                        t.state(&(rep.dim(), p, q, a, b));
                        Ok(())
                    });
                }
            }
        }
    });
}

fn mismatch(run: &mut Run) {
    run.section("representations", 27, |ctx, w| {
        let (r, s, u) = (REPS[w % 3], REPS[w / 3 % 3], REPS[w / 9]);
        let names = [
            "t2_add", "t2_ddot_t2", "t2_dot_t2", "t2_dyad_t2", "t2_dyad_t2_update", "t2_odyad_t2", "t2_udyad_t2",
            "t2_qsd_t2", "t2_ssd", "t4_ddot_t2", "t4_ddot_t2_update", "t2_ddot_t4", "t2_ddot_t4_ddot_t2",
            "t4_ddot_t2_dyad_t2_ddot_t4", "t4_add", "t4_ddot_t4", "t4_ddot_t4_update", "t3_add", "t3_dot_t1",
            "t3_ddot_t2",
        ];
        for name in names {
            ctx.case(format!("{name} {r:?} {s:?} {u:?}"), |t| {
                t.op();
                let (a2, b2) = (t2(&dense(s)[0], s)?, t2(&dense(u)[1], u)?);
                let (a4, b4) = (Tensor4::new(s), Tensor4::new(u));
                let (mut x2, mut x4) = (Tensor2::new(r), Tensor4::new(r));
                let same = r == s && s == u;
                let (res, want) = match name {
                    "t2_add" => (guarded(|| t2_add(&mut x2, 1.0, &a2, 1.0, &b2)), same),
                    "t2_ddot_t2" => (guarded(|| { t2_ddot_t2(&a2, &b2); }), s == u),
                    "t2_dot_t2" => (guarded(|| t2_dot_t2(&mut x2, &a2, &b2)), r == Rep::General && s == u),
                    "t2_dyad_t2" => (guarded(|| t2_dyad_t2(&mut x4, 1.0, &a2, &b2)), same),
                    "t2_dyad_t2_update" => (guarded(|| t2_dyad_t2_update(&mut x4, 1.0, &a2, &b2)), same),
                    "t2_odyad_t2" => (guarded(|| t2_odyad_t2(&mut x4, 1.0, &a2, &b2)), r == Rep::General && s == u),
                    "t2_udyad_t2" => (guarded(|| t2_udyad_t2(&mut x4, 1.0, &a2, &b2)), r == Rep::General && s == u),
                    "t2_qsd_t2" => (guarded(|| t2_qsd_t2(&mut x4, 1.0, &a2, &b2)), r == Rep::Symmetric && s == u),
                    "t2_ssd" => (guarded(|| t2_ssd(&mut x4, 1.0, &a2)), r == Rep::Symmetric),
                    "t4_ddot_t2" => (guarded(|| t4_ddot_t2(&mut x2, 1.0, &a4, &b2)), same),
                    "t4_ddot_t2_update" => (guarded(|| t4_ddot_t2_update(&mut x2, 1.0, &a4, &b2, 1.0)), same),
                    "t2_ddot_t4" => (guarded(|| t2_ddot_t4(&mut x2, 1.0, &a2, &b4)), same),
                    "t2_ddot_t4_ddot_t2" => (guarded(|| { t2_ddot_t4_ddot_t2(&a2, &x4, &b2); }), same),
                    "t4_ddot_t2_dyad_t2_ddot_t4" => {
                        let b = Tensor2::new(r);
                        (guarded(|| t4_ddot_t2_dyad_t2_ddot_t4(&mut x4, 1.0, &a4, 1.0, &b, &b2)), same)
                    }
                    "t4_add" => (guarded(|| t4_add(&mut x4, 1.0, &a4, 1.0, &b4)), same),
                    "t4_ddot_t4" => (guarded(|| t4_ddot_t4(&mut x4, 1.0, &a4, &b4)), same),
                    "t4_ddot_t4_update" => (guarded(|| t4_ddot_t4_update(&mut x4, 1.0, &a4, &b4, 1.0)), same),
                    "t3_add" => {
                        let mut x = Tensor3::new(r, true);
                        let (a, b) = (Tensor3::new(s, true), Tensor3::new(u, true));
                        let other = Tensor3::new(u, false);
                        ensure!(guarded(|| t3_add(&mut x, 1.0, &a, 1.0, &other)).is_err(), "mixed cases accepted");
                        (guarded(|| t3_add(&mut x, 1.0, &a, 1.0, &b)), same)
                    }
                    "t3_dot_t1" => {
                        let h = Tensor3::new(s, true);
                        (guarded(|| t3_dot_t1(&mut x2, 1.0, &h, &Tensor1::new())), r == s)
                    }
                    _ => {
                        let h = Tensor3::new(s, false);
                        let mut y = Tensor1::new();
                        (guarded(|| t3_ddot_t2(&mut y, 1.0, &h, &b2)), s == u)
                    }
                };
                ensure!(res.is_ok() == want, "accepted: {}, expected: {want}", res.is_ok());
                t.state(&(name, w));
                Ok(())
            });
        }
    });
}

pub fn explore(run: &mut Run) {
    run.level(
        "exploration",
        "every operation on every pair of basis tensors of every representation (complete by multilinearity; sums of two basis tensors for quadratic operations) plus full tensors and factors, against the index sums",
    );
    second(run);
    first(run);
    third(run);
    fourth(run);
    mismatch(run);
}
