//! T04: elastic moduli, projectors and constants

use crate::reft::*;
use mc::*;
use russell_tensor::*;

const YOUNG: [f64; 4] = [1.0, 0.25, 96.0, 2.1e11];
const POISSON: [f64; 9] = [-0.75, -0.25, 0.0, 0.125, 0.2, 0.25, 0.3, 0.4375, 0.4999];

#[derive(Clone, Copy, Debug, PartialEq)]
enum Mode {
    Solid,
    PlaneStrain,
    PlaneStress,
    PlaneStressToo,
}

const MODES: [Mode; 4] = [Mode::Solid, Mode::PlaneStrain, Mode::PlaneStress, Mode::PlaneStressToo];

impl Mode {
    fn make(self, e: f64, nu: f64) -> LinElasticity {
        match self {
            Mode::Solid => LinElasticity::new(e, nu, false, false),
            Mode::PlaneStrain => LinElasticity::new(e, nu, true, false),
            Mode::PlaneStress => LinElasticity::new(e, nu, true, true),
            Mode::PlaneStressToo => LinElasticity::new(e, nu, false, true),
        }
    }
    fn rep(self) -> Rep {
        if self == Mode::Solid {
            Rep::Symmetric
        } else {
            Rep::Symmetric2D
        }
    }
    fn plane_stress(self) -> bool {
        self == Mode::PlaneStress || self == Mode::PlaneStressToo
    }
}

/// Textbook stress of a strain
fn stress(e: f64, nu: f64, plane_stress: bool, eps: &A2) -> A2 {
    let g = e / (2.0 * (1.0 + nu));
    if plane_stress {
        let c = e / (1.0 - nu * nu);
        let mut s = zero2();
        s[0][0] = c * (eps[0][0] + nu * eps[1][1]);
        s[1][1] = c * (eps[1][1] + nu * eps[0][0]);
        s[0][1] = 2.0 * g * eps[0][1];
        s[1][0] = s[0][1];
        s
    } else {
        let lam = e * nu / ((1.0 + nu) * (1.0 - 2.0 * nu));
        let mut s = scale2(2.0 * g, eps);
        for i in 0..3 {
            s[i][i] += lam * tr2(eps);
        }
        s
    }
}

/// Strain of a stress (Hooke's law in compliance form)
fn strain(e: f64, nu: f64, sig: &A2) -> A2 {
    let mut s = scale2((1.0 + nu) / e, sig);
    for i in 0..3 {
        s[i][i] -= nu / e * tr2(sig);
    }
    s
}

fn relmax(a: &A2, b: &A2, tol: f64, what: &str) -> Outcome {
    let m = f64::max(max2(b), 1e-300);
    same2(&scale2(1.0 / m, a), &scale2(1.0 / m, b), tol).map_err(|e| format!("{what} (scaled): {e}"))
}

/// Everything observable about a material
fn check(m: &LinElasticity, mode: Mode, e: f64, nu: f64) -> Outcome {
    let rep = mode.rep();
    ensure!(m.rep() == rep, "representation {:?}", m.rep());
    let (ge, gnu) = m.get_young_poisson();
    // conditioning of the conversion from bulk and shear modulus
    let amp = 1.0 / (1.0 - 2.0 * nu).min(1.0 + nu);
    let tol = 1e-13 * f64::max(1.0, amp);
    ensure!(rel(ge, e, tol), "Young's modulus {ge} instead of {e}");
    ensure!((gnu - nu).abs() <= tol, "Poisson's coefficient {gnu} instead of {nu}");
    let (k, g) = m.get_bulk_shear();
    let (wk, wg) = (e / (3.0 * (1.0 - 2.0 * nu)), e / (2.0 * (1.0 + nu)));
    ensure!(rel(k, wk, 10.0 * tol * amp), "bulk modulus {k} instead of {wk}");
    ensure!(rel(g, wg, 10.0 * tol * amp), "shear modulus {g} instead of {wg}");
    let tol = 10.0 * tol * amp;
    let dd = m.get_modulus();
    let d = std4(dd);
    let n = rep.dim();
    for i in 0..n {
        for j in 0..n {
            ensure!(dd.get(i, j) == dd.get(j, i), "modulus is not symmetric at {i},{j}");
        }
    }
    let mut fam = basis(rep);
    fam.extend(dense(rep));
    for eps in &fam {
        let want = stress(e, nu, mode.plane_stress(), eps);
        let te = t2(eps, rep)?;
        let mut s = dirty2(rep, f64::NAN);
        m.calc_stress(&mut s, &te);
        relmax(&std2(&s), &want, tol, "stress")?;
        relmax(&ddot42(&d, eps), &want, tol, "modulus times strain")?;
        same2(&std2(&te), eps, 1e-15)?;
        // positive energy (plane stress: of the in-plane strain)
        let energy = ddot2(&want, eps);
        let got = t2_ddot_t4_ddot_t2(&te, dd, &te);
        ensure!((got - energy).abs() <= tol * max2(&want) * 100.0, "energy {got} instead of {energy}");
        let mut inplane = *eps;
        if mode.plane_stress() {
            inplane[2][2] = 0.0;
            ensure!(s.get_std(2, 2) == 0.0, "out-of-plane stress {}", s.get_std(2, 2));
        }
        if inplane != zero2() {
            ensure!(got > 0.0, "energy {got} is not positive");
        }
        // out-of-plane strain
        let r = m.out_of_plane_strain(&s);
        if mode.plane_stress() {
            let z = r?;
            let want = strain(e, nu, &std2(&s))[2][2];
            ensure!((z - want).abs() <= tol * f64::max(1.0, want.abs()), "out-of-plane strain {z} instead of {want}");
            // the three-dimensional law with this strain gives the same stress and no out-of-plane stress
            let mut full = *eps;
            full[2][2] = z;
            let s3 = stress(e, nu, false, &full);
            let m1 = max2(&std2(&s)).max(1e-300);
            same2(&scale2(1.0 / m1, &s3), &scale2(1.0 / m1, &std2(&s)), 100.0 * tol)
                .map_err(|e| format!("plane stress against the solid law: {e}"))?;
        } else {
            ensure!(r.is_err(), "out-of-plane strain without plane stress");
        }
    }
    let mut c = dirty4(rep, 777.0);
    let r = m.calc_compliance(&mut c);
    if mode.plane_stress() {
        ensure!(r.is_err(), "compliance in plane stress");
    } else {
        r?;
        for i in 0..n {
            for j in 0..n {
                let scale = (c.get(i, i) * c.get(j, j)).abs().sqrt();
                ensure!((c.get(i, j) - c.get(j, i)).abs() <= tol * scale, "compliance is not symmetric at {i},{j}");
            }
        }
        let cc = std4(&c);
        for sig in &fam {
            let eps = strain(e, nu, sig);
            if rep == Rep::Symmetric || fits(&eps, rep) {
                relmax(&ddot42(&cc, sig), &eps, tol * 10.0, "compliance times stress")?;
            }
            let back = ddot42(&cc, &ddot42(&d, sig));
            relmax(&back, sig, tol * 10.0, "compliance times modulus")?;
        }
        for other in REPS {
            if other != rep {
                ensure!(m.calc_compliance(&mut Tensor4::new(other)).is_err(), "compliance into {other:?}");
            }
        }
    }
    Ok(())
}

fn elasticity(run: &mut Run) {
    let nl = YOUNG.len() * POISSON.len();
    run.section("materials", 4 * nl, |ctx, w| {
        let mode = MODES[w % 4];
        let (e, nu) = (YOUNG[w / 4 % 4], POISSON[w / 16]);
        ctx.case(format!("{mode:?} E={e} nu={nu}"), |t| {
            t.op();
            t.state(&w);
            check(&mode.make(e, nu), mode, e, nu)
        });
    });
    // histories of parameter changes
    // (neighbours share Young's modulus, Poisson's ratio, the bulk or the shear modulus exactly)
    let pick: Vec<(f64, f64)> =
        vec![(9.0, 0.125), (9.0, 0.0), (9.0, -0.25), (36.0, 0.125), (10.0, 0.25), (6.0, 0.25), (2.1e11, 0.3)];
    let nops = 2 * pick.len();
    let depth = run.pick(3, 4);
    run.section("parameter changes", 4 * pick.len() * nops, |ctx, w| {
        let mode = MODES[w % 4];
        let start = pick[w / 4 % pick.len()];
        let first = w / (4 * pick.len());
        for rest in 0..pow(nops, depth - 1) {
            let mut seq = vec![first];
            seq.extend(digits(rest, nops, depth - 1));
            ctx.case(format!("{mode:?} {start:?} {seq:?}"), |t| {
                let mut m = mode.make(start.0, start.1);
                let mut now = start;
                for &o in &seq {
                    t.op();
                    now = pick[o / 2];
                    let (e, nu) = now;
                    if o % 2 == 0 {
                        m.set_young_poisson(e, nu);
                    } else {
                        m.set_bulk_shear(e / (3.0 * (1.0 - 2.0 * nu)), e / (2.0 * (1.0 + nu)));
                    }
                    // exactly the modulus of a new material with the parameters now reported
                    let (ge, gnu) = m.get_young_poisson();
                    let f = mode.make(ge, gnu);
                    for i in 0..m.rep().dim() {
                        for j in 0..m.rep().dim() {
                            let (a, b) = (m.get_modulus().get(i, j), f.get_modulus().get(i, j));
                            ensure!(a == b, "modulus {i},{j} is {a}, a new material has {b}");
                        }
                    }
                }
                t.state(&(w % 4, seq.last().cloned(), hash_f64(&[now.0, now.1])));
                check(&m, mode, now.0, now.1)
            });
        }
    });
}

fn id(i: usize, j: usize) -> f64 {
    if i == j {
        1.0
    } else {
        0.0
    }
}

fn constants(run: &mut Run) {
    let full: Vec<(&str, Tensor4, A4)> = vec![
        ("II", Tensor4::constant_ii(), make4(|i, j, k, l| id(i, k) * id(j, l))),
        ("TT", Tensor4::constant_tt(), make4(|i, j, k, l| id(i, l) * id(j, k))),
        ("JJ", Tensor4::constant_jj(false), make4(|i, j, k, l| id(i, j) * id(k, l))),
        ("JJ6", Tensor4::constant_jj(true), make4(|i, j, k, l| id(i, j) * id(k, l))),
        ("Piso", Tensor4::constant_pp_iso(false), make4(|i, j, k, l| id(i, j) * id(k, l) / 3.0)),
        ("Piso6", Tensor4::constant_pp_iso(true), make4(|i, j, k, l| id(i, j) * id(k, l) / 3.0)),
        (
            "Psym",
            Tensor4::constant_pp_sym(false),
            make4(|i, j, k, l| (id(i, k) * id(j, l) + id(i, l) * id(j, k)) / 2.0),
        ),
        (
            "Psym6",
            Tensor4::constant_pp_sym(true),
            make4(|i, j, k, l| (id(i, k) * id(j, l) + id(i, l) * id(j, k)) / 2.0),
        ),
        (
            "Pskew",
            Tensor4::constant_pp_skew(),
            make4(|i, j, k, l| (id(i, k) * id(j, l) - id(i, l) * id(j, k)) / 2.0),
        ),
        ("Pdev", Tensor4::constant_pp_dev(), make4(|i, j, k, l| id(i, k) * id(j, l) - id(i, j) * id(k, l) / 3.0)),
        (
            "Psymdev",
            Tensor4::constant_pp_symdev(false),
            make4(|i, j, k, l| (id(i, k) * id(j, l) + id(i, l) * id(j, k)) / 2.0 - id(i, j) * id(k, l) / 3.0),
        ),
        (
            "Psymdev6",
            Tensor4::constant_pp_symdev(true),
            make4(|i, j, k, l| (id(i, k) * id(j, l) + id(i, l) * id(j, k)) / 2.0 - id(i, j) * id(k, l) / 3.0),
        ),
    ];
    let n = full.len();
    let tol = 1e-15;
    run.section("fourth-order constants", n * n, |ctx, w| {
        let (na, ta, a) = &full[w % n];
        let (nb, tb, b) = &full[w / n];
        ctx.case(format!("{na} {nb}"), |t| {
            t.op();
            same4(&std4(ta), a, tol)?;
            ensure!((ta.rep() == Rep::Symmetric) == na.ends_with('6'), "representation of {na}");
            if ta.rep() == tb.rep() {
                let ab = make4(|i, j, k, l| {
                    let mut s = 0.0;
                    for p in 0..3 {
                        for q in 0..3 {
                            s += a[i][j][p][q] * b[p][q][k][l];
                        }
                    }
                    s
                });
                let mut c = dirty4(ta.rep(), 777.0);
                t4_ddot_t4(&mut c, 1.0, ta, tb);
                same4(&std4(&c), &ab, tol)?;
                if w % n == w / n && na.starts_with('P') {
                    same4(&std4(&c), a, tol).map_err(|e| format!("{na} is not a projection: {e}"))?;
                }
            }
            // applied to every tensor
            let mut fam = basis(ta.rep());
            fam.extend(dense(ta.rep()));
            for x in &fam {
                let mut y = dirty2(ta.rep(), f64::NAN);
                t4_ddot_t2(&mut y, 1.0, ta, &t2(x, ta.rep())?);
                let xt = transp2(x);
                let iso = scale2(tr2(x) / 3.0, &[[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]);
                let sym = scale2(0.5, &axpy2(x, 1.0, &xt));
                let want = match na.trim_end_matches('6') {
                    "II" => *x,
                    "TT" => xt,
                    "JJ" => scale2(3.0, &iso),
                    "Piso" => iso,
                    "Psym" => sym,
                    "Pskew" => scale2(0.5, &axpy2(x, -1.0, &xt)),
                    "Pdev" => axpy2(x, -1.0, &iso),
                    _ => axpy2(&sym, -1.0, &iso),
                };
                same2(&std2(&y), &want, 1e-14).map_err(|e| format!("{na}: {e}"))?;
            }
            t.state(&w);
            Ok(())
        });
    });
    // plain arrays with the same meaning
    let arrays: Vec<(&str, [[f64; 9]; 9], &str)> = vec![
        ("IDENTITY4", IDENTITY4, "II"),
        ("TRANSPOSITION", TRANSPOSITION, "TT"),
        ("TRACE_PROJECTION", TRACE_PROJECTION, "JJ"),
        ("P_ISO", P_ISO, "Piso"),
        ("P_SYM", P_SYM, "Psym"),
        ("P_SKEW", P_SKEW, "Pskew"),
        ("P_DEV", P_DEV, "Pdev"),
        ("P_SYMDEV", P_SYMDEV, "Psymdev"),
    ];
    run.section("constant arrays", arrays.len(), |ctx, w| {
        let (name, arr, other) = &arrays[w];
        ctx.case(name.to_string(), |t| {
            t.op();
            let a = &full.iter().find(|f| f.0 == *other).unwrap().2;
            for m in 0..9 {
                let row = ddot24(&kelvin_basis(m), a);
                for n in 0..9 {
                    let want = ddot2(&row, &kelvin_basis(n));
                    ensure!((arr[m][n] - want).abs() <= 2e-15, "{name} {m},{n} is {} instead of {want}", arr[m][n]);
                }
            }
            t.state(&w);
            Ok(())
        });
    });
    run.section("other constants", 1, |ctx, _| {
        ctx.case("numbers", |t| {
            t.op();
            ensure!(SQRT_2 == 2f64.sqrt() && SQRT_3 == 3f64.sqrt() && SQRT_6 == 6f64.sqrt(), "square roots");
            ensure!(near(SQRT_2_BY_3, (2f64 / 3.0).sqrt(), 2e-16), "SQRT_2_BY_3");
            ensure!(near(SQRT_3_BY_2, (3f64 / 2.0).sqrt(), 3e-16), "SQRT_3_BY_2");
            ensure!(ONE_BY_3 == 1.0 / 3.0 && TWO_BY_3 == 2.0 / 3.0, "thirds");
            for m in 0..9 {
                let want = ddot2(&kelvin_basis(m), &[[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]);
                ensure!(IDENTITY2[m] == want, "IDENTITY2 {m}");
            }
            t.state(&0);
            Ok(())
        });
        ctx.case("identity", |t| {
            for rep in REPS {
                t.op();
                let want = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]];
                let i = Tensor2::identity(rep);
                ensure!(i.rep() == rep, "representation");
                same2(&std2(&i), &want, 0.0)?;
            }
            t.state(&1);
            Ok(())
        });
        ctx.case("index maps", |t| {
            // all maps between indices and positions agree with the documented order
            for (m, &(i, j)) in PAIRS.iter().enumerate() {
                t.op();
                ensure!(M_TO_IJ[m] == (i, j) && IJ_TO_M[i][j] == m, "pair {m}");
                let sym = if m < 6 { m } else { m - 3 };
                ensure!(IJ_TO_M_SYM[i][j] == sym, "symmetric pair {m}");
                for k in 0..3 {
                    ensure!(MN_TO_IJK_CASE_A[m][k] == (i, j, k) && IJK_TO_MN_CASE_A[i][j][k] == (m, k), "case A {m},{k}");
                    ensure!(MN_TO_IJK_CASE_B[k][m] == (k, i, j) && IJK_TO_MN_CASE_B[k][i][j] == (k, m), "case B {m},{k}");
                    ensure!(IJK_TO_MN_SYM_CASE_A[i][j][k] == (sym, k), "symmetric case A {m},{k}");
                    ensure!(IJK_TO_MN_SYM_CASE_B[k][i][j] == (k, sym), "symmetric case B {m},{k}");
                }
                for (n, &(k, l)) in PAIRS.iter().enumerate() {
                    ensure!(MN_TO_IJKL[m][n] == (i, j, k, l) && IJKL_TO_MN[i][j][k][l] == (m, n), "fourth {m},{n}");
                    let sn = if n < 6 { n } else { n - 3 };
                    ensure!(IJKL_TO_MN_SYM[i][j][k][l] == (sym, sn), "symmetric fourth {m},{n}");
                }
            }
            t.state(&2);
            Ok(())
        });
        for case_a in [true, false] {
            ctx.case(format!("permutation case_a={case_a}"), |t| {
                t.op();
                let e = Tensor3::constant_permutation(case_a);
                ensure!(e.is_case_a() == case_a && e.rep() == Rep::General, "kind");
                let mut want = [[[0.0; 3]; 3]; 3];
                for i in 0..3 {
                    for j in 0..3 {
                        for k in 0..3 {
                            let s = (j as f64 - i as f64) * (k as f64 - i as f64) * (k as f64 - j as f64) / 2.0;
                            want[i][j][k] = s;
                        }
                    }
                }
                same3(&std3(&e), &want, 1e-15)?;
                t.state(&(3, case_a));
                Ok(())
            });
        }
    });
}

pub fn explore(run: &mut Run) {
    run.level(
        "model_checking",
        "all sequences of parameter changes up to the depth on materials of every mode, a lattice of parameters, all strains of a basis, and the complete algebra of the constant tensors",
    );
    run.assume("Young's modulus positive and Poisson's coefficient strictly between -1 and 1/2");
    elasticity(run);
    constants(run);
}
