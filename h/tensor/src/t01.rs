//! T01: the stored form always denotes the same tensor

use crate::reft::*;
use mc::*;
use russell_lab::{Matrix, Vector};
use russell_tensor::*;

const TOL: f64 = 1e-12;
const DIRT: f64 = 777.0;

/// Compares every way of reading a second-order tensor with the component array
fn read2(t: &Tensor2, want: &A2) -> Outcome {
    let rep = t.rep();
    ensure!(t.dim() == rep.dim(), "dim {}", t.dim());
    same2(&std2(t), want, TOL)?;
    for m in 0..t.dim() {
        let w = ddot2(&kelvin_basis(m), want);
        ensure!(close(t.get(m), w, TOL * 10.0), "Kelvin component {m} is {} instead of {w}", t.get(m));
    }
    same_mat(&t.as_std_matrix(), 3, 3, |i, j| want[i][j], TOL)?;
    let mut buf = Matrix::filled(3, 3, DIRT);
    t.to_std_matrix(&mut buf);
    same_mat(&buf, 3, 3, |i, j| want[i][j], TOL)?;
    let g = t.as_general();
    ensure!(g.rep() == Rep::General, "as_general has {:?}", g.rep());
    same2(&std2(&g), want, TOL)?;
    if rep == Rep::Symmetric2D {
        let (z, m) = t.as_std_matrix_2d();
        ensure!(close(z, want[2][2], TOL), "out-of-plane component {z}");
        same_mat(&m, 2, 2, |i, j| want[i][j], TOL)?;
        let s = t.sym2d_as_symmetric();
        ensure!(s.rep() == Rep::Symmetric, "sym2d_as_symmetric has {:?}", s.rep());
        same2(&std2(&s), want, TOL)?;
    } else {
        ensure!(guarded(|| t.as_std_matrix_2d()).is_err(), "3D tensor read as 2D");
        ensure!(guarded(|| t.sym2d_as_symmetric()).is_err(), "3D tensor read as 2D");
    }
    let c = t.clone();
    same2(&std2(&c), want, TOL)
}

#[derive(Clone, Debug)]
enum Op2 {
    Matrix(A2),
    Set(usize, usize, f64),
    Add(usize, usize, f64, f64),
    Kelvin(usize, f64),
    Vector(f64, usize),
    Tensor(f64, usize),
    Update(f64, usize),
    Clear,
    Refused,
}

fn ops2(rep: Rep) -> Vec<Op2> {
    let mut ops = Vec::new();
    let n = rep.dim();
    for a in dense(rep).iter().take(2) {
        ops.push(Op2::Matrix(*a));
    }
    if rep != Rep::General {
        for m in 0..n {
            let (i, j) = PAIRS[m];
            ops.push(Op2::Set(i, j, 3.0 + m as f64));
            if i != j {
                ops.push(Op2::Set(j, i, -2.0));
            }
            ops.push(Op2::Add(i, j, 0.5, 6.0 - m as f64));
        }
    } else {
        ops.push(Op2::Kelvin(7, 2.0));
    }
    for m in 0..n {
        ops.push(Op2::Kelvin(m, 1.0 + m as f64));
    }
    ops.push(Op2::Vector(2.0, 0));
    ops.push(Op2::Tensor(-0.5, 1));
    ops.push(Op2::Tensor(1.0, 2));
    ops.push(Op2::Update(2.0, 0));
    ops.push(Op2::Update(-1.0, 2));
    ops.push(Op2::Update(0.0, 1));
    ops.push(Op2::Clear);
    ops.push(Op2::Refused);
    ops
}

fn apply2(t: &mut Tensor2, model: &mut A2, op: &Op2) -> Outcome {
    let rep = t.rep();
    let data = dense(rep);
    match op {
        Op2::Matrix(a) => {
            t.set_std_matrix(a)?;
            *model = *a;
        }
        Op2::Set(i, j, v) => {
            t.sym_set_std(*i, *j, *v);
            model[*i][*j] = *v;
            model[*j][*i] = *v;
        }
        Op2::Add(i, j, alpha, v) => {
            t.sym_add_std(*i, *j, *alpha, *v);
            model[*i][*j] += alpha * v;
            if i != j {
                model[*j][*i] += alpha * v;
            }
        }
        Op2::Kelvin(m, v) => {
            t.set(*m, *v);
            let e = kelvin_basis(*m);
            let old = ddot2(model, &e);
            *model = axpy2(model, v - old, &e);
        }
        Op2::Vector(alpha, k) => {
            let v: Vec<f64> = (0..rep.dim()).map(|m| ddot2(&data[*k], &kelvin_basis(m))).collect();
            t.set_vector(*alpha, &v);
            *model = scale2(*alpha, &data[*k]);
        }
        Op2::Tensor(alpha, k) => {
            t.set_tensor(*alpha, &t2(&data[*k], rep)?);
            *model = scale2(*alpha, &data[*k]);
        }
        Op2::Update(alpha, k) => {
            t.update(*alpha, &t2(&data[*k], rep)?);
            *model = axpy2(model, *alpha, &data[*k]);
        }
        Op2::Clear => {
            t.clear();
            *model = zero2();
        }
        Op2::Refused => {
            // calls that do not fit the representation leave the tensor alone
            for other in REPS {
                if other != rep {
                    let o = t2(&dense(other)[0], other)?;
                    let mut c = t.clone();
                    ensure!(guarded(|| c.update(1.0, &o)).is_err(), "update with {other:?} accepted");
                    ensure!(guarded(|| c.set_tensor(1.0, &o)).is_err(), "set_tensor with {other:?} accepted");
                    ensure!(
                        guarded(|| c.set_vector(1.0, &vec![1.0; other.dim()])).is_err(),
                        "set_vector with {other:?} accepted"
                    );
                    if !fits(&dense(other)[0], rep) {
                        ensure!(t.set_std_matrix(&dense(other)[0]).is_err(), "components of {other:?} accepted");
                    }
                }
            }
            if rep == Rep::General {
                let mut c = t.clone();
                ensure!(guarded(|| c.sym_set_std(0, 0, 1.0)).is_err(), "sym_set_std on general tensor");
                ensure!(guarded(|| c.sym_add_std(0, 0, 1.0, 1.0)).is_err(), "sym_add_std on general tensor");
            }
        }
    }
    Ok(())
}

fn histories2(run: &mut Run) {
    let depth = run.pick(4, 5);
    for rep in REPS {
        let ops = ops2(rep);
        let n = ops.len();
        run.section(&format!("T2 histories {rep:?}"), n * n, |ctx, w| {
            for rest in 0..pow(n, depth - 2) {
                let mut seq = digits(w, n, 2);
                seq.extend(digits(rest, n, depth - 2));
                ctx.case(format!("{seq:?}"), |t| {
                    let mut x = Tensor2::new(rep);
                    let mut model = zero2();
                    for (k, &i) in seq.iter().enumerate() {
                        t.op();
                        apply2(&mut x, &mut model, &ops[i]).map_err(|e| format!("step {k} {:?}: {e}", ops[i]))?;
                        // shorter prefixes are read back in the case where they end
                        if k + 1 == seq.len() || (rest == 0 && k > 0) || k == 0 {
                            read2(&x, &model).map_err(|e| format!("after step {k} {:?}: {e}", ops[i]))?;
                        }
                    }
                    t.state_f64(&std2(&x).concat());
                    Ok(())
                });
            }
        });
    }
}

fn accept2(run: &mut Run) {
    let vals = [0.0, 1.0, -2.0];
    run.section("T2 acceptance", 3 * pow(3, 4), |ctx, w| {
        let rep = REPS[w % 3];
        let head = digits(w / 3, 3, 4);
        for rest in 0..pow(3, 5) {
            let mut d = head.clone();
            d.extend(digits(rest, 3, 5));
            ctx.case(format!("{rep:?} {d:?}"), |t| {
                t.op();
                let mut a = zero2();
                for i in 0..9 {
                    a[i / 3][i % 3] = vals[d[i]];
                }
                let ok = fits(&a, rep);
                let mut x = dirty2(rep, DIRT);
                let before = std2(&x);
                let r = x.set_std_matrix(&a);
                ensure!(r.is_ok() == ok, "set_std_matrix gives {r:?}");
                if ok {
                    read2(&x, &a)?;
                } else {
                    same2(&std2(&x), &before, 0.0)?;
                }
                let r = Tensor2::from_std_matrix(&a, rep);
                ensure!(r.is_ok() == ok, "from_std_matrix gives {:?}", r.err());
                if let Ok(y) = r {
                    read2(&y, &a)?;
                    // the other kinds of input containers
                    let nested: Vec<Vec<f64>> = a.iter().map(|r| r.to_vec()).collect();
                    read2(&Tensor2::from_std_matrix(&nested, rep)?, &a)?;
                    read2(&Tensor2::from_std_matrix(&Matrix::from(&a), rep)?, &a)?;
                    // parts
                    let (mut s, mut k) = (dirty2(rep, DIRT), dirty2(rep, DIRT));
                    y.decompose(&mut s, &mut k);
                    let at = transp2(&a);
                    same2(&std2(&s), &scale2(0.5, &axpy2(&a, 1.0, &at)), TOL)?;
                    same2(&std2(&k), &scale2(0.5, &axpy2(&a, -1.0, &at)), TOL)?;
                    let mut tr = dirty2(rep, DIRT);
                    y.transpose(&mut tr);
                    same2(&std2(&tr), &at, TOL)?;
                    // skew part times v equals axial vector cross v
                    let mut om = Tensor1::from(&[DIRT, DIRT, DIRT]);
                    y.axial_vector(&mut om);
                    let skw = scale2(0.5, &axpy2(&a, -1.0, &at));
                    for v in 0..3 {
                        let mut e = [0.0; 3];
                        e[v] = 1.0;
                        let mut c = Tensor1::from(&[DIRT, DIRT, DIRT]);
                        om.cross(&mut c, &Tensor1::from(&e));
                        for i in 0..3 {
                            ensure!(close(c.get(i), skw[i][v], TOL), "axial vector {:?}", om.as_vector());
                        }
                    }
                    read2(&y, &a)?;
                }
                t.state(&d);
                Ok(())
            });
        }
    });
}

fn vectors(run: &mut Run) {
    let n = 5;
    run.section("T1", pow(n, 3), |ctx, w| {
        let d = digits(w, n, 3);
        for v in 0..pow(n, 3) {
            let e = digits(v, n, 3);
            ctx.case(format!("{d:?} {e:?}"), |t| {
                t.op();
                let a: Vec<f64> = d.iter().map(|x| *x as f64 - 2.0).collect();
                let b: Vec<f64> = e.iter().map(|x| *x as f64 * 0.5 - 1.0).collect();
                let x = Tensor1::from(&a);
                let mut y = Tensor1::new();
                for i in 0..3 {
                    ensure!(y.get(i) == 0.0, "new vector is not zero");
                }
                for i in 0..3 {
                    y.set(i, b[i]);
                }
                let s = a[0] * b[0] + a[1] * b[1] + a[2] * b[2];
                ensure!(x.dot(&y) == s && y.dot(&x) == s, "dot");
                let mut c = Tensor1::from(&[DIRT, DIRT, DIRT]);
                x.cross(&mut c, &y);
                for i in 0..3 {
                    let (j, k) = ((i + 1) % 3, (i + 2) % 3);
                    ensure!(c.get(i) == a[j] * b[k] - a[k] * b[j], "cross component {i} = {}", c.get(i));
                    ensure!(x.get(i) == a[i] && y.get(i) == b[i], "inputs changed");
                    ensure!(x.as_vector()[i] == a[i], "as_vector");
                    ensure!(Tensor1::from(&Vector::from(&a)).get(i) == a[i], "from vector");
                }
                ensure!(x.as_vector().dim() == 3, "as_vector dim");
                t.state(&(d.clone(), e.clone()));
                Ok(())
            });
        }
    });
}

fn fits3(a: &A3, rep: Rep, case_a: bool) -> bool {
    for k in 0..3 {
        let mut m = zero2();
        for i in 0..3 {
            for j in 0..3 {
                m[i][j] = if case_a { a[i][j][k] } else { a[k][i][j] };
            }
        }
        if !fits(&m, rep) {
            return false;
        }
    }
    true
}

/// Component belonging to the position in the 9x3 or 3x9 matrix
fn at3(a: &A3, m: usize, n: usize, case_a: bool) -> f64 {
    if case_a {
        a[PAIRS[m].0][PAIRS[m].1][n]
    } else {
        a[m][PAIRS[n].0][PAIRS[n].1]
    }
}

fn mat3(a: &A3, case_a: bool) -> Matrix {
    let (r, c) = if case_a { (9, 3) } else { (3, 9) };
    let mut m = Matrix::new(r, c);
    for i in 0..r {
        for j in 0..c {
            m.set(i, j, at3(a, i, j, case_a));
        }
    }
    m
}

fn read3(t: &Tensor3, want: &A3) -> Outcome {
    let case_a = t.is_case_a();
    same3(&std3(t), want, TOL)?;
    let (r, c) = if case_a { (9, 3) } else { (3, 9) };
    let d = t.rep().dim();
    ensure!(t.dims() == if case_a { (d, 3) } else { (3, d) }, "dims {:?}", t.dims());
    same_mat(&t.as_std_matrix(), r, c, |i, j| at3(want, i, j, case_a), TOL)?;
    let mut buf = Matrix::filled(r, c, DIRT);
    t.to_std_matrix(&mut buf);
    same_mat(&buf, r, c, |i, j| at3(want, i, j, case_a), TOL)?;
    let mut arr = vec![vec![vec![DIRT; 3]; 3]; 3];
    t.to_std_array(&mut arr);
    let arr2 = t.as_std_array();
    for i in 0..3 {
        for j in 0..3 {
            for k in 0..3 {
                let w = want[i][j][k];
                ensure!(close(arr[i][j][k], w, TOL), "to_std_array {i}{j}{k} is {} instead of {w}", arr[i][j][k]);
                ensure!(close(arr2[i][j][k], w, TOL), "as_std_array {i}{j}{k} is {} instead of {w}", arr2[i][j][k]);
            }
        }
    }
    // stored components
    for m in 0..t.dims().0 {
        for n in 0..t.dims().1 {
            let e = kelvin_basis(if case_a { m } else { n });
            let mut w = 0.0;
            for i in 0..3 {
                for j in 0..3 {
                    w += e[i][j] * if case_a { want[i][j][n] } else { want[m][i][j] };
                }
            }
            ensure!(close(t.get(m, n), w, TOL * 10.0), "Kelvin component {m},{n} is {} instead of {w}", t.get(m, n));
        }
    }
    Ok(())
}

fn dirty3(rep: Rep, case_a: bool) -> Tensor3 {
    let mut t = Tensor3::new(rep, case_a);
    let (r, c) = t.dims();
    for m in 0..r {
        for n in 0..c {
            t.set(m, n, DIRT);
        }
    }
    t
}

fn try3(a: &A3, rep: Rep, case_a: bool) -> Outcome {
    let ok = fits3(a, rep, case_a);
    let m = mat3(a, case_a);
    for way in 0..4 {
        let mut x = dirty3(rep, case_a);
        let r = match way {
            0 => x.set_std_array(a),
            1 => x.set_std_matrix(&m),
            2 => Tensor3::from_std_array(a, rep, case_a).map(|y| x = y),
            _ => Tensor3::from_std_matrix(&m, rep, case_a).map(|y| x = y),
        };
        ensure!(r.is_ok() == ok, "input way {way} gives {r:?}");
        if ok {
            read3(&x, a).map_err(|e| format!("input way {way}: {e}"))?;
        }
    }
    Ok(())
}

fn accept3(run: &mut Run) {
    // all arrays with one, two, three or four nonzero components
    run.section("T3 acceptance", 6 * 27, |ctx, w| {
        let rep = REPS[w % 3];
        let case_a = w / 3 % 2 == 0;
        let first = w / 6;
        let deep = ctx.thorough();
        let mut one = |idx: &[usize], vals: &[f64]| {
            ctx.case(format!("{rep:?} case_a={case_a} {idx:?} {vals:?}"), |t| {
                t.op();
                let mut a = [[[0.0; 3]; 3]; 3];
                for (p, v) in idx.iter().zip(vals) {
                    a[p / 9][p / 3 % 3][p % 3] = *v;
                }
                t.state(&(rep.dim(), case_a, idx.to_vec(), hash_f64(vals)));
                try3(&a, rep, case_a)
            });
        };
        one(&[first], &[3.0]);
        for b in first + 1..27 {
            one(&[first, b], &[3.0, 3.0]);
            one(&[first, b], &[3.0, -3.0]);
            one(&[first, b], &[3.0, 5.0]);
            for c in b + 1..27 {
                one(&[first, b, c], &[3.0, 3.0, 3.0]);
                one(&[first, b, c], &[3.0, 3.0, -4.0]);
                for d in c + 1..27 {
                    one(&[first, b, c, d], &[3.0, 3.0, 3.0, 3.0]);
                    if deep {
                        one(&[first, b, c, d], &[3.0, 5.0, 3.0, 5.0]);
                        one(&[first, b, c, d], &[3.0, 3.0, 5.0, 5.0]);
                        one(&[first, b, c, d], &[3.0, 5.0, 5.0, 3.0]);
                    }
                }
            }
        }
    });
}

/// Full arrays for the third-order histories
fn dense3(rep: Rep, case_a: bool) -> Vec<A3> {
    let d = dense(rep);
    (0..2)
        .map(|s| {
            let mut a = [[[0.0; 3]; 3]; 3];
            for k in 0..3 {
                let m = &d[(k + s) % 3];
                for i in 0..3 {
                    for j in 0..3 {
                        let v = m[i][j] * (1.0 + k as f64);
                        if case_a {
                            a[i][j][k] = v;
                        } else {
                            a[k][i][j] = v;
                        }
                    }
                }
            }
            a
        })
        .collect()
}

fn add3(a: &A3, alpha: f64, b: &A3, keep: f64) -> A3 {
    let mut c = *a;
    for i in 0..3 {
        for j in 0..3 {
            for k in 0..3 {
                c[i][j][k] = keep * a[i][j][k] + alpha * b[i][j][k];
            }
        }
    }
    c
}

fn histories3(run: &mut Run) {
    let depth = run.pick(3, 4);
    // operations: 0-1 set array, 2 set matrix, 3-4 set_tensor, 5-6 update, 7.. sym_set_std of every component
    run.section("T3 histories", 6 * (7 + 27), |ctx, w| {
        let rep = REPS[w % 3];
        let case_a = w / 3 % 2 == 0;
        let first = w / 6;
        let data = dense3(rep, case_a);
        let mut ops: Vec<usize> = (0..7).collect();
        if rep != Rep::General {
            for p in 0..27 {
                let (i, j, k) = (p / 9, p / 3 % 3, p % 3);
                let (u, v) = if case_a { (i, j) } else { (j, k) };
                if rep == Rep::Symmetric || u == v || (u < 2 && v < 2) {
                    ops.push(7 + p);
                }
            }
        }
        if !ops.contains(&first) {
            return;
        }
        let n = ops.len();
        for rest in 0..pow(n, depth - 1) {
            let mut seq = vec![first];
            seq.extend(digits(rest, n, depth - 1).iter().map(|d| ops[*d]));
            ctx.case(format!("{rep:?} case_a={case_a} {seq:?}"), |t| {
                let mut x = Tensor3::new(rep, case_a);
                let mut model = [[[0.0; 3]; 3]; 3];
                for &op in &seq {
                    t.op();
                    match op {
                        0 | 1 => {
                            x.set_std_array(&data[op])?;
                            model = data[op];
                        }
                        2 => {
                            x.set_std_matrix(&mat3(&data[0], case_a))?;
                            model = data[0];
                        }
                        3 | 4 => {
                            let o = Tensor3::from_std_array(&data[op - 3], rep, case_a)?;
                            let f = [2.0, -0.5][op - 3];
                            x.set_tensor(f, &o);
                            model = add3(&model, f, &data[op - 3], 0.0);
                        }
                        5 | 6 => {
                            let o = Tensor3::from_std_array(&data[op - 5], rep, case_a)?;
                            let f = [3.0, -1.0][op - 5];
                            x.update(f, &o);
                            model = add3(&model, f, &data[op - 5], 1.0);
                        }
                        _ => {
                            let p = op - 7;
                            let (i, j, k) = (p / 9, p / 3 % 3, p % 3);
                            let v = 1.5 + p as f64;
                            x.sym_set_std(i, j, k, v);
                            model[i][j][k] = v;
                            if case_a {
                                model[j][i][k] = v;
                            } else {
                                model[i][k][j] = v;
                            }
                        }
                    }
                }
                read3(&x, &model)?;
                t.state_f64(&model.iter().flatten().flatten().cloned().collect::<Vec<_>>());
                Ok(())
            });
        }
    });
    run.section("T3 mismatch", 36, |ctx, w| {
        let (r1, r2) = (REPS[w % 3], REPS[w / 3 % 3]);
        let (c1, c2) = (w / 9 % 2 == 0, w / 18 == 0);
        ctx.case(format!("{r1:?} {c1} {r2:?} {c2}"), |t| {
            t.op();
            let ok = r1 == r2 && c1 == c2;
            let o = Tensor3::new(r2, c2);
            let mut x = Tensor3::new(r1, c1);
            ensure!(guarded(|| x.update(1.0, &o)).is_ok() == ok, "update");
            ensure!(guarded(|| x.set_tensor(1.0, &o)).is_ok() == ok, "set_tensor");
            let mut y = Tensor3::new_sym(r1 == Rep::Symmetric2D, c1);
            ensure!(y.rep() == if r1 == Rep::Symmetric2D { r1 } else { Rep::Symmetric }, "new_sym");
            ensure!(Tensor3::new_sym_ndim(2, c1).rep() == Rep::Symmetric2D, "new_sym_ndim");
            ensure!(Tensor3::new_sym_ndim(3, c1).rep() == Rep::Symmetric, "new_sym_ndim");
            y.sym_set_std(0, 0, 0, 1.0);
            ensure!(y.get_std(0, 0, 0) == 1.0, "sym_set_std");
            if r1 == Rep::General {
                ensure!(guarded(|| x.sym_set_std(0, 0, 0, 1.0)).is_err(), "sym_set_std on general tensor");
            }
            t.state(&w);
            Ok(())
        });
    });
}

fn fits4(a: &A4, rep: Rep) -> bool {
    for p in 0..3 {
        for q in 0..3 {
            let (mut m, mut n) = (zero2(), zero2());
            for i in 0..3 {
                for j in 0..3 {
                    m[i][j] = a[i][j][p][q];
                    n[i][j] = a[p][q][i][j];
                }
            }
            if !fits(&m, rep) || !fits(&n, rep) {
                return false;
            }
        }
    }
    true
}

fn at4(a: &A4, m: usize, n: usize) -> f64 {
    a[PAIRS[m].0][PAIRS[m].1][PAIRS[n].0][PAIRS[n].1]
}

fn mat4(a: &A4) -> Matrix {
    let mut m = Matrix::new(9, 9);
    for i in 0..9 {
        for j in 0..9 {
            m.set(i, j, at4(a, i, j));
        }
    }
    m
}

fn read4(t: &Tensor4, want: &A4) -> Outcome {
    same4(&std4(t), want, TOL)?;
    ensure!(t.dim() == t.rep().dim(), "dim {}", t.dim());
    same_mat(&t.as_std_matrix(), 9, 9, |i, j| at4(want, i, j), TOL)?;
    let mut buf = Matrix::filled(9, 9, DIRT);
    t.to_std_matrix(&mut buf);
    same_mat(&buf, 9, 9, |i, j| at4(want, i, j), TOL)?;
    let mut arr = vec![vec![vec![vec![DIRT; 3]; 3]; 3]; 3];
    t.to_std_array(&mut arr);
    let arr2 = t.as_std_array();
    for i in 0..3 {
        for j in 0..3 {
            for k in 0..3 {
                for l in 0..3 {
                    let w = want[i][j][k][l];
                    let (g, h) = (arr[i][j][k][l], arr2[i][j][k][l]);
                    ensure!(close(g, w, TOL), "to_std_array {i}{j}{k}{l} is {g} instead of {w}");
                    ensure!(close(h, w, TOL), "as_std_array {i}{j}{k}{l} is {h} instead of {w}");
                }
            }
        }
    }
    Ok(())
}

fn kelvin4(t: &Tensor4, want: &A4) -> Outcome {
    for m in 0..t.dim() {
        let row = ddot24(&kelvin_basis(m), want);
        for n in 0..t.dim() {
            let w = ddot2(&row, &kelvin_basis(n));
            ensure!(close(t.get(m, n), w, TOL * 10.0), "Kelvin component {m},{n} is {} instead of {w}", t.get(m, n));
        }
    }
    Ok(())
}

fn try4(a: &A4, rep: Rep) -> Outcome {
    let ok = fits4(a, rep);
    let m = mat4(a);
    for way in 0..4 {
        let mut x = dirty4(rep, DIRT);
        let r = match way {
            0 => x.set_std_array(a),
            1 => x.set_std_matrix(&m),
            2 => Tensor4::from_std_array(a, rep).map(|y| x = y),
            _ => Tensor4::from_std_matrix(&m, rep).map(|y| x = y),
        };
        ensure!(r.is_ok() == ok, "input way {way} gives {r:?}");
        if ok {
            read4(&x, a).map_err(|e| format!("input way {way}: {e}"))?;
            if way < 2 {
                kelvin4(&x, a)?;
            }
        }
    }
    Ok(())
}

fn orbit(p: usize) -> Vec<usize> {
    let (i, j, k, l) = (p / 27, p / 9 % 3, p / 3 % 3, p % 3);
    let mut v = Vec::new();
    for (i, j) in [(i, j), (j, i)] {
        for (k, l) in [(k, l), (l, k)] {
            let q = i * 27 + j * 9 + k * 3 + l;
            if !v.contains(&q) {
                v.push(q);
            }
        }
    }
    v.sort();
    v
}

fn put4(list: &[(usize, f64)]) -> A4 {
    let mut a = zero4();
    for &(p, v) in list {
        a[p / 27][p / 9 % 3][p / 3 % 3][p % 3] = v;
    }
    a
}

fn accept4(run: &mut Run) {
    run.section("T4 acceptance", 3 * 81, |ctx, w| {
        let rep = REPS[w % 3];
        let first = w / 3;
        let orb = orbit(first);
        let deep = ctx.thorough();
        let mut one = |name: String, list: &[(usize, f64)]| {
            ctx.case(format!("{rep:?} {name}"), |t| {
                t.op();
                t.state(&(rep.dim(), name.clone()));
                try4(&put4(list), rep)
            });
        };
        one(format!("[{first}]"), &[(first, 3.0)]);
        for b in first + 1..81 {
            one(format!("[{first},{b}]"), &[(first, 3.0), (b, 3.0)]);
            one(format!("[{first},-{b}]"), &[(first, 3.0), (b, -3.0)]);
            if deep {
                for c in b + 1..81 {
                    one(format!("[{first},{b},{c}]"), &[(first, 3.0), (b, 3.0), (c, 3.0)]);
                }
            }
        }
        // complete orbits of the minor symmetries, alone, in pairs, and with each entry disturbed
        if orb[0] == first {
            let full: Vec<(usize, f64)> = orb.iter().map(|p| (*p, 3.0)).collect();
            one(format!("orbit {first}"), &full);
            for k in 0..full.len() {
                let mut l = full.clone();
                l[k].1 = 4.0;
                one(format!("orbit {first} disturbed {k}"), &l);
                l[k].1 = -3.0;
                one(format!("orbit {first} negated {k}"), &l);
            }
            for b in first + 1..81 {
                let ob = orbit(b);
                if ob[0] == b {
                    let mut l = full.clone();
                    l.extend(ob.iter().map(|p| (*p, -5.0)));
                    one(format!("orbits {first} {b}"), &l);
                }
            }
        }
    });
}

fn dense4(rep: Rep) -> Vec<A4> {
    let d = dense(rep);
    (0..2)
        .map(|s| {
            make4(|i, j, k, l| {
                let mut v = 0.0;
                for r in 0..3 {
                    v += d[r][i][j] * d[(r + 1 + s) % 3][k][l] * (1.0 + r as f64);
                }
                v
            })
        })
        .collect()
}

fn add4(a: &A4, alpha: f64, b: &A4, keep: f64) -> A4 {
    make4(|i, j, k, l| keep * a[i][j][k][l] + alpha * b[i][j][k][l])
}

fn histories4(run: &mut Run) {
    // three steps over every component, then one reading
    let depth = 3;
    run.section("T4 histories", 3 * (8 + 81), |ctx, w| {
        let rep = REPS[w % 3];
        let first = w / 3;
        let data = dense4(rep);
        let mut ops: Vec<usize> = (0..8).collect();
        if rep != Rep::General {
            for p in 0..81 {
                let (i, j, k, l) = (p / 27, p / 9 % 3, p / 3 % 3, p % 3);
                let flat = |u: usize, v: usize| u == v || (u < 2 && v < 2);
                if rep == Rep::Symmetric || (flat(i, j) && flat(k, l)) {
                    ops.push(8 + p);
                }
            }
        }
        if !ops.contains(&first) {
            return;
        }
        let n = ops.len();
        for rest in 0..pow(n, depth - 1) {
            let mut seq = vec![first];
            seq.extend(digits(rest, n, depth - 1).iter().map(|d| ops[*d]));
            ctx.case(format!("{rep:?} {seq:?}"), |t| {
                let mut x = Tensor4::new(rep);
                let mut model = zero4();
                for &op in &seq {
                    t.op();
                    match op {
                        0 | 1 => {
                            x.set_std_array(&data[op])?;
                            model = data[op];
                        }
                        2 => {
                            x.set_std_matrix(&mat4(&data[0]))?;
                            model = data[0];
                        }
                        3 | 4 => {
                            let f = [2.0, -0.5][op - 3];
                            x.set_tensor(f, &Tensor4::from_std_array(&data[op - 3], rep)?);
                            model = add4(&model, f, &data[op - 3], 0.0);
                        }
                        5 | 6 => {
                            let f = [3.0, -1.0][op - 5];
                            x.update(f, &Tensor4::from_std_array(&data[op - 5], rep)?);
                            model = add4(&model, f, &data[op - 5], 1.0);
                        }
                        7 => {
                            x.set_pp_symdev();
                            let id = |a: usize, b: usize| if a == b { 1.0 } else { 0.0 };
                            model = make4(|i, j, k, l| {
                                (id(i, k) * id(j, l) + id(i, l) * id(j, k)) / 2.0 - id(i, j) * id(k, l) / 3.0
                            });
                            if rep == Rep::Symmetric2D {
                                // in-plane part
                                for (i, j) in [(0, 2), (1, 2), (2, 0), (2, 1)] {
                                    for (k, l) in [(0, 2), (1, 2), (2, 0), (2, 1)] {
                                        model[i][j][k][l] = 0.0;
                                    }
                                }
                            }
                        }
                        _ => {
                            let p = op - 8;
                            let (i, j, k, l) = (p / 27, p / 9 % 3, p / 3 % 3, p % 3);
                            let v = 1.5 + p as f64;
                            x.sym_set_std(i, j, k, l, v);
                            for (i, j) in [(i, j), (j, i)] {
                                for (k, l) in [(k, l), (l, k)] {
                                    model[i][j][k][l] = v;
                                }
                            }
                        }
                    }
                }
                read4(&x, &model)?;
                if seq[0] < 8 {
                    kelvin4(&x, &model)?;
                }
                t.state_f64(&model.iter().flatten().flatten().flatten().cloned().collect::<Vec<_>>());
                Ok(())
            });
        }
    });
    run.section("T4 mismatch", 9, |ctx, w| {
        let (r1, r2) = (REPS[w % 3], REPS[w / 3]);
        ctx.case(format!("{r1:?} {r2:?}"), |t| {
            t.op();
            let o = Tensor4::new(r2);
            let mut x = Tensor4::new(r1);
            ensure!(guarded(|| x.update(1.0, &o)).is_ok() == (r1 == r2), "update");
            ensure!(guarded(|| x.set_tensor(1.0, &o)).is_ok() == (r1 == r2), "set_tensor");
            ensure!(Rep::new(r1.dim()) == r1, "Rep::new");
            ensure!(r1.symmetric() == (r1 != Rep::General) && r1.two_dim() == (r1 == Rep::Symmetric2D), "Rep");
            for ndim in [2, 3] {
                let want = if ndim == 2 { Rep::Symmetric2D } else { Rep::Symmetric };
                ensure!(Tensor4::new_sym_ndim(ndim).rep() == want, "new_sym_ndim");
                ensure!(Tensor4::new_sym(ndim == 2).rep() == want, "new_sym");
                ensure!(Tensor2::new_sym_ndim(ndim).rep() == want, "new_sym_ndim");
                ensure!(Tensor2::new_sym(ndim == 2).rep() == want, "new_sym");
            }
            if r1 == Rep::General {
                ensure!(guarded(|| x.sym_set_std(0, 0, 0, 0, 1.0)).is_err(), "sym_set_std on general tensor");
            }
            t.state(&w);
            Ok(())
        });
    });
}

/// The text of a tensor shows every component in its place, in columns
fn shown(text: &str, want: &[Vec<f64>], digits: Option<usize>) -> Outcome {
    let lines: Vec<&str> = text.lines().collect();
    ensure!(lines.len() == want.len() + 2, "{} lines", lines.len());
    ensure!(lines.iter().all(|l| l.chars().count() == lines[0].chars().count()), "lines of different lengths:\n{text}");
    for (line, row) in lines[1..].iter().zip(want) {
        let got: Vec<&str> = line.split_whitespace().filter(|w| *w != "│").map(|w| w.trim_matches('│')).filter(|w| !w.is_empty()).collect();
        let same = got.len() == row.len() && got.iter().zip(row).all(|(g, v)| digits.map_or(format!("{v}"), |d| format!("{v:.d$}")) == *g);
        ensure!(same, "line {line:?} instead of {row:?}");
    }
    Ok(())
}

fn display(run: &mut Run) {
    run.section("text", 3, |ctx, w| {
        let rep = REPS[w];
        let n = rep.dim();
        for (at, value) in (0..81).flat_map(|k| [(k, -12345.0625), (k, 1e7), (k, 0.001953125)]) {
            ctx.case(format!("{rep:?}/{at}/{value}"), |t| {
                t.op();
                let entry = |k: usize| if k == at { value } else { k as f64 * 0.5 - 1.0 };
                let mut one = Tensor1::new();
                let mut two = Tensor2::new(rep);
                let mut four = Tensor4::new(rep);
                (0..3).for_each(|k| one.set(k, entry(k)));
                (0..n).for_each(|k| two.set(k, entry(k)));
                (0..n * n).for_each(|k| four.set(k / n, k % n, entry(k)));
                let column = |m: usize| -> Vec<Vec<f64>> { (0..m).map(|k| vec![entry(k)]).collect() };
                let table = |m: usize, l: usize| -> Vec<Vec<f64>> { (0..m).map(|i| (0..l).map(|j| entry(i * l + j)).collect()).collect() };
                shown(&format!("{one}"), &column(3), None)?;
                shown(&format!("{one:.3}"), &column(3), Some(3))?;
                shown(&format!("{two}"), &column(n), None)?;
                shown(&format!("{two:.3}"), &column(n), Some(3))?;
                shown(&format!("{four}"), &table(n, n), None)?;
                shown(&format!("{four:.3}"), &table(n, n), Some(3))?;
                for case_a in [false, true] {
                    let mut three = Tensor3::new(rep, case_a);
                    let (nr, nc) = three.dims();
                    (0..nr * nc).for_each(|k| three.set(k / nc, k % nc, entry(k)));
                    shown(&format!("{three}"), &table(nr, nc), None)?;
                    shown(&format!("{three:.3}"), &table(nr, nc), Some(3))?;
                }
                t.state(&(w, at, value.to_bits()));
                Ok(())
            });
        }
    });
}

pub fn explore(run: &mut Run) {
    run.level(
        "model_checking",
        "all operation sequences up to the depth, and all component arrays with few nonzero components, in lock-step with the plain component array",
    );
    run.assume("components outside the plane are never written one by one into a two-dimensional tensor (documented precondition)");
    vectors(run);
    display(run);
    accept2(run);
    histories2(run);
    accept3(run);
    histories3(run);
    accept4(run);
    histories4(run);
}
