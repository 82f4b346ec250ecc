//! P05: transfinite maps and metrics

use crate::geo::*;
use mc::*;
use russell_lab::Vector;
use russell_pde::*;
use std::f64::consts::PI;

const LATTICE: [f64; 6] = [-1.0, -0.625, -0.1, 0.0, 0.55, 1.0];

fn junk(n: usize) -> Vector {
    Vector::filled(n, f64::NAN)
}

fn same(what: &str, got: &Vector, want: &[f64], tol: f64, at: &[f64]) -> Outcome {
    for k in 0..want.len() {
        ensure!((got[k] - want[k]).abs() <= tol, "{what} at {at:?}: component {k} is {} instead of {}", got[k], want[k]);
    }
    Ok(())
}

/// The map of the repository against the reference map at every lattice point
fn compare_2d(t: &mut Trace, pair: &Pair, second: bool, positive: bool) -> Outcome {
    let mut map = (pair.make)();
    let d = &pair.d;
    let size = LATTICE.iter().map(|r| LATTICE.iter().map(|s| { let x = d(0, 0, *r, *s); x[0].abs().max(x[1].abs()) }).fold(0.0, f64::max)).fold(1e-300, f64::max);
    let tol = 1e-13 * size;
    let (mut x, mut xr, mut xs, mut xrr, mut xss, mut xrs) = (junk(2), junk(2), junk(2), junk(2), junk(2), junk(2));
    for r in LATTICE {
        for s in LATTICE {
            t.op();
            let at = [r, s];
            x = junk(2);
            map.point(&mut x, r, s);
            same("position", &x, &d(0, 0, r, s), tol, &at)?;
            t.state_f64(&[x[0], x[1], r, s]);
            for v in [&mut x, &mut xr, &mut xs, &mut xrr, &mut xss, &mut xrs] {
                v.fill(f64::NAN);
            }
            map.point_and_derivs(&mut x, &mut xr, &mut xs, Some(&mut xrr), Some(&mut xss), Some(&mut xrs), r, s);
            same("position with derivatives", &x, &d(0, 0, r, s), tol, &at)?;
            same("dx/dr", &xr, &d(1, 0, r, s), 4.0 * tol, &at)?;
            same("dx/ds", &xs, &d(0, 1, r, s), 4.0 * tol, &at)?;
            same("d2x/dr2", &xrr, &d(2, 0, r, s), 16.0 * tol, &at)?;
            same("d2x/ds2", &xss, &d(0, 2, r, s), 16.0 * tol, &at)?;
            same("d2x/drds", &xrs, &d(1, 1, r, s), 16.0 * tol, &at)?;
            if positive {
                let det = xr[0] * xs[1] - xr[1] * xs[0];
                ensure!(det > 0.0, "Jacobian {det} at {at:?}");
            }
            if second {
                // without second derivatives
                x.fill(f64::NAN);
                xr.fill(f64::NAN);
                xs.fill(f64::NAN);
                map.point_and_derivs(&mut x, &mut xr, &mut xs, None, None, None, r, s);
                same("position without second derivatives", &x, &d(0, 0, r, s), tol, &at)?;
                same("dx/dr without second derivatives", &xr, &d(1, 0, r, s), 4.0 * tol, &at)?;
                same("dx/ds without second derivatives", &xs, &d(0, 1, r, s), 4.0 * tol, &at)?;
            }
        }
    }
    let c = map.get_corners();
    for (p, (r, s)) in [c.0, c.1, c.2, c.3].into_iter().zip([(-1.0, -1.0), (1.0, -1.0), (1.0, 1.0), (-1.0, 1.0)]) {
        same("corner", p, &d(0, 0, r, s), tol, &[r, s])?;
    }
    Ok(())
}

fn maps_2d(run: &mut Run) {
    let deg = run.pick(5, 8);
    let all = deg * deg;
    run.section("polynomial_boundaries_2d", all * all, |ctx, k| {
        let (i, j) = (k % all, k / all);
        let comps = || [vec![(1.5, i % deg, i / deg), (0.25, 0, 0)], vec![(-0.75, j % deg, j / deg), (2.0, 1, 0)]];
        ctx.case(&format!("poly2d/{i}/{j}"), |t| compare_2d(t, &polynomial("", comps(), true), true, false));
        if i % deg <= 1 && i / deg <= 1 && j % deg <= 1 && j / deg <= 1 {
            ctx.case(&format!("poly2d/{i}/{j}/straight"), |t| compare_2d(t, &polynomial("", comps(), false), true, false));
        }
    });
    let mut samples = quadrilaterals();
    samples.extend(curved());
    for (a, b) in [(1.0, 1.5), (2.0, 100.0), (1e3, 1e5), (1e-9, 2e-9)] {
        samples.push(ring(a, b, false));
        samples.push(ring(a, b, true));
        samples.push(lozenge(a, 1.8 * b));
    }
    run.section("sample_maps_2d", samples.len(), |ctx, k| {
        let pair = &samples[k];
        ctx.case(&format!("sample2d/{}", pair.name), |t| compare_2d(t, pair, true, true));
        for nr in 2..=6 {
            for ns in 2..=6 {
                for cgl in 0..4 {
                    ctx.case(&format!("triangles/{}/{nr}x{ns}/{cgl}", pair.name), |t| triangles(t, pair, nr, ns, cgl & 1 == 1, cgl & 2 == 2));
                }
            }
        }
        for (nr, ns) in [(7, 2), (2, 7), (8, 9), (9, 4), (4, 9), (17, 8), (8, 17), (21, 3), (3, 21), (22, 33)] {
            for cgl in 0..4 {
                ctx.case(&format!("triangles/{}/{nr}x{ns}/{cgl}", pair.name), |t| triangles(t, pair, nr, ns, cgl & 1 == 1, cgl & 2 == 2));
            }
        }
    });
    // quadrilaterals with every corner arrangement on a small lattice
    run.section("all_quadrilaterals", 81, |ctx, k| {
        for l in 0..81 {
            let (a, b) = (digits(k, 9, 2), digits(l, 9, 2));
            let p = |i: usize| [(i % 3) as f64 - 0.5, (i / 3) as f64 * 1.5];
            ctx.case(&format!("quadrilateral/{k}/{l}"), |t| compare_2d(t, &quadrilateral("", [p(a[0]), p(a[1]), p(b[0]), p(b[1])]), false, false));
        }
    });
}

fn triangles(t: &mut Trace, pair: &Pair, nr: usize, ns: usize, cgl_r: bool, cgl_s: bool) -> Outcome {
    t.ops(nr * ns);
    let (xx, yy, tri) = (pair.make)().triangulate(nr, ns, cgl_r, cgl_s);
    t.state_f64(&xx);
    let place = |cgl: bool, i: usize, n: usize| {
        let f = i as f64 / (n - 1) as f64;
        if cgl {
            -(PI * f).cos()
        } else {
            2.0 * f - 1.0
        }
    };
    ensure!(xx.len() == nr * ns && yy.len() == nr * ns, "{} points", xx.len());
    let size = xx.iter().chain(yy.iter()).fold(0.0, |a: f64, b| a.max(b.abs()));
    let mut used = vec![false; nr * ns];
    for j in 0..ns {
        for i in 0..nr {
            let want = (pair.d)(0, 0, place(cgl_r, i, nr), place(cgl_s, j, ns));
            let m = i + j * nr;
            ensure!((xx[m] - want[0]).abs() <= 1e-13 * size && (yy[m] - want[1]).abs() <= 1e-13 * size, "point {m} is ({},{}) instead of {want:?}", xx[m], yy[m]);
        }
    }
    ensure!(tri.len() == 2 * (nr - 1) * (ns - 1), "{} triangles", tri.len());
    let cross = |a: usize, b: usize| xx[a] * yy[b] - xx[b] * yy[a];
    let mut area = 0.0;
    for v in &tri {
        ensure!(v.len() == 3 && v.iter().all(|m| *m < nr * ns), "triangle {v:?}");
        area += 0.5 * (cross(v[0], v[1]) + cross(v[1], v[2]) + cross(v[2], v[0]));
        let (mut i, mut j): (Vec<usize>, Vec<usize>) = (v.iter().map(|m| m % nr).collect(), v.iter().map(|m| m / nr).collect());
        i.sort();
        j.sort();
        ensure!(i[2] - i[0] == 1 && j[2] - j[0] == 1, "triangle {v:?} is not within one cell");
        for m in v {
            used[*m] = true;
        }
    }
    ensure!(used.iter().all(|u| *u), "a point is in no triangle");
    let mut outline: Vec<usize> = (0..nr).collect();
    outline.extend((1..ns).map(|j| j * nr + nr - 1));
    outline.extend((0..nr - 1).rev().map(|i| (ns - 1) * nr + i));
    outline.extend((1..ns - 1).rev().map(|j| j * nr));
    let mut want = 0.0;
    for q in 0..outline.len() {
        want += 0.5 * cross(outline[q], outline[(q + 1) % outline.len()]);
    }
    ensure!((area - want).abs() <= 1e-12 * size * size, "area {area} of the triangles instead of {want}");
    Ok(())
}

/// Component of a 3D field: coefficient and powers
type Term = (f64, [usize; 3]);

fn d3(term: &Term, n: [usize; 3], x: [f64; 3]) -> f64 {
    let mut v = term.0;
    for k in 0..3 {
        v *= dpow(term.1[k], n[k], x[k]);
    }
    v
}

fn blend3(term: &Term, n: [usize; 3], x: [f64; 3]) -> f64 {
    let mut rest = term.0;
    for k in 0..3 {
        rest *= dpow(term.1[k], n[k], x[k]) - dlin(term.1[k], n[k], x[k]);
    }
    d3(term, n, x) - rest
}

/// Map with the boundary values of the field; each component has two terms
fn polynomial_3d(comps: [[Term; 2]; 3], second: bool) -> Transfinite3d {
    // derivatives n of the two free parameters on a face
    let face = move |f: usize, n: [usize; 2], u: f64, v: f64, k: usize| -> f64 {
        let axis = f / 2;
        let fixed = if f % 2 == 0 { -1.0 } else { 1.0 };
        let free = [[1, 2], [0, 2], [0, 1]][axis];
        let (mut order, mut x) = ([0; 3], [fixed; 3]);
        order[free[0]] = n[0];
        order[free[1]] = n[1];
        x[free[0]] = u;
        x[free[1]] = v;
        comps[k].iter().map(|t| d3(t, order, x)).sum()
    };
    let b0: Vec<FnVec1Param2> = (0..6)
        .map(|f| {
            Box::new(move |x: &mut Vector, u: f64, v: f64| {
                for k in 0..3 {
                    x[k] = face(f, [0, 0], u, v, k);
                }
            }) as FnVec1Param2
        })
        .collect();
    let b1: Vec<FnVec2Param2> = (0..6)
        .map(|f| {
            Box::new(move |x: &mut Vector, y: &mut Vector, u: f64, v: f64| {
                for k in 0..3 {
                    x[k] = face(f, [1, 0], u, v, k);
                    y[k] = face(f, [0, 1], u, v, k);
                }
            }) as FnVec2Param2
        })
        .collect();
    let b2: Vec<FnVec3Param2> = (0..6)
        .map(|f| {
            Box::new(move |x: &mut Vector, y: &mut Vector, z: &mut Vector, u: f64, v: f64| {
                for k in 0..3 {
                    x[k] = face(f, [2, 0], u, v, k);
                    y[k] = face(f, [0, 2], u, v, k);
                    z[k] = face(f, [1, 1], u, v, k);
                }
            }) as FnVec3Param2
        })
        .collect();
    Transfinite3d::new(b0, b1, if second { Some(b2) } else { None }).unwrap()
}

fn compare_3d(t: &mut Trace, map: &mut Transfinite3d, d: &dyn Fn([usize; 3], [f64; 3]) -> [f64; 3], lattice: &[f64], positive: bool) -> Outcome {
    let mut size: f64 = 1e-300;
    for r in [-1.0, 1.0] {
        for s in [-1.0, 1.0] {
            for q in [-1.0, 1.0] {
                size = d([0; 3], [r, s, q]).iter().fold(size, |a, b| a.max(b.abs()));
            }
        }
    }
    let tol = 2e-13 * size;
    let orders = [[1, 0, 0], [0, 1, 0], [0, 0, 1], [2, 0, 0], [0, 2, 0], [0, 0, 2], [1, 1, 0], [1, 0, 1], [0, 1, 1]];
    let names = ["dx/dr", "dx/ds", "dx/dt", "d2x/dr2", "d2x/ds2", "d2x/dt2", "d2x/drds", "d2x/drdt", "d2x/dsdt"];
    let mut x = junk(3);
    let mut v: Vec<Vector> = (0..9).map(|_| junk(3)).collect();
    for r in lattice {
        for s in lattice {
            for q in lattice {
                t.op();
                let at = [*r, *s, *q];
                x.fill(f64::NAN);
                map.point(&mut x, *r, *s, *q);
                same("position", &x, &d([0; 3], at), tol, &at)?;
                t.state_f64(&[x[0], x[1], x[2], *r, *s, *q]);
                x.fill(f64::NAN);
                v.iter_mut().for_each(|w| w.fill(f64::NAN));
                let [a, b, c, e, f, g, h, i, j] = &mut v[..] else { fail!("harness") };
                map.point_and_derivs(&mut x, a, b, c, Some(e), Some(f), Some(g), Some(h), Some(i), Some(j), *r, *s, *q);
                same("position with derivatives", &x, &d([0; 3], at), tol, &at)?;
                for k in 0..9 {
                    same(names[k], &v[k], &d(orders[k], at), 20.0 * tol, &at)?;
                }
                if positive {
                    let m = |i: usize, j: usize| v[j][i];
                    let det = m(0, 0) * (m(1, 1) * m(2, 2) - m(1, 2) * m(2, 1)) - m(0, 1) * (m(1, 0) * m(2, 2) - m(1, 2) * m(2, 0)) + m(0, 2) * (m(1, 0) * m(2, 1) - m(1, 1) * m(2, 0));
                    ensure!(det > 0.0, "Jacobian {det} at {at:?}");
                }
                x.fill(f64::NAN);
                v.iter_mut().for_each(|w| w.fill(f64::NAN));
                let [a, b, c, ..] = &mut v[..] else { fail!("harness") };
                map.point_and_derivs(&mut x, a, b, c, None, None, None, None, None, None, *r, *s, *q);
                same("position without second derivatives", &x, &d([0; 3], at), tol, &at)?;
                for k in 0..3 {
                    same(names[k], &v[k], &d(orders[k], at), 20.0 * tol, &at)?;
                }
            }
        }
    }
    let c = map.get_corners();
    let ends = [[-1.0, -1.0, -1.0], [1.0, -1.0, -1.0], [1.0, 1.0, -1.0], [-1.0, 1.0, -1.0], [-1.0, -1.0, 1.0], [1.0, -1.0, 1.0], [1.0, 1.0, 1.0], [-1.0, 1.0, 1.0]];
    for (p, at) in [c.0, c.1, c.2, c.3, c.4, c.5, c.6, c.7].into_iter().zip(ends) {
        same("corner", p, &d([0; 3], at), tol, &at)?;
    }
    Ok(())
}

fn maps_3d(run: &mut Run) {
    let deg = run.pick(4, 5);
    let all = deg * deg * deg;
    let lattice: &[f64] = if run.thorough() { &[-1.0, -0.4, 0.0, 0.7, 1.0] } else { &[-1.0, -0.4, 0.7, 1.0] };
    run.section("polynomial_boundaries_3d", all * all, |ctx, k| {
        let (i, j) = (k % all, k / all);
        let p = |i: usize| [i % deg, i / deg % deg, i / deg / deg];
        let comps = [[(1.25, p(i)), (0.5, [1, 0, 0])], [(-0.5, p(j)), (1.5, [0, 1, 0])], [(2.0, p((i + j) % all)), (0.75, [0, 0, 1])]];
        let d = |n: [usize; 3], x: [f64; 3]| [0, 1, 2].map(|k| comps[k].iter().map(|t| blend3(t, n, x)).sum::<f64>());
        ctx.case(&format!("poly3d/{i}/{j}"), |t| compare_3d(t, &mut polynomial_3d(comps, true), &d, lattice, false));
        if comps.iter().flatten().all(|t| t.1.iter().filter(|q| **q > 0).count() <= 1 && t.1.iter().all(|q| *q <= 1)) {
            ctx.case(&format!("poly3d/{i}/{j}/flat"), |t| compare_3d(t, &mut polynomial_3d(comps, false), &d, lattice, false));
        }
    });
    let lens = [1e-6, 0.5, 1.0, 3.0, 2e4];
    run.section("brick", 125, |ctx, k| {
        let l = digits(k, 5, 3);
        let l = [lens[l[0]], lens[l[1]], lens[l[2]]];
        ctx.case(&format!("brick/{k}"), |t| {
            let d = |n: [usize; 3], x: [f64; 3]| {
                [0, 1, 2].map(|c| {
                    let mut v = 0.5 * l[c];
                    for k in 0..3 {
                        v *= if k == c { [1.0 + x[k], 1.0, 0.0][n[k]] } else if n[k] == 0 { 1.0 } else { 0.0 };
                    }
                    v
                })
            };
            compare_3d(t, &mut TransfiniteSamples::brick_3d(l[0], l[1], l[2]), &d, lattice, false)
        });
    });
    let radii = [(1.0, 2.0, 1.0), (0.25, 6.0, 0.1), (10.0, 10.5, 40.0), (1e-4, 2e-4, 1e-4)];
    run.section("ring_3d", radii.len(), |ctx, k| {
        let (a, b, h) = radii[k];
        ctx.case(&format!("ring3d/{k}"), |t| {
            let d = |n: [usize; 3], x: [f64; 3]| {
                let w = PI / 4.0;
                let ang = w * (1.0 + x[2]) + n[2] as f64 * PI / 2.0;
                let rad = [a + 0.5 * (1.0 + x[1]) * (b - a), 0.5 * (b - a), 0.0][n[1]];
                let c = if n[0] == 0 { rad * w.powi(n[2] as i32) } else { 0.0 };
                let x0 = if n[1] + n[2] > 0 { 0.0 } else { 0.5 * h * [1.0 + x[0], 1.0, 0.0][n[0]] };
                [x0, c * ang.cos(), c * ang.sin()]
            };
            compare_3d(t, &mut TransfiniteSamples::quarter_ring_3d(a, b, h), &d, lattice, true)
        });
    });
}

/// Metric quantities against their definitions for a matrix of base vectors (columns)
fn metric(t: &mut Trace, met: &mut Metrics, ndim: usize, base: &[Vec<f64>], second: &[Vec<f64>], homogeneous: bool, regular: bool) -> Outcome {
    t.op();
    let v = |x: &Vec<f64>| Vector::from(x);
    let b: Vec<Vector> = base.iter().map(v).collect();
    let c: Vec<Vector> = second.iter().map(v).collect();
    let opt = |k: usize| if homogeneous { None } else { Some(&c[k]) };
    let res = if ndim == 2 {
        met.calculate_2d(&b[0], &b[1], opt(0), opt(1), opt(2))
    } else {
        met.calculate_3d(&b[0], &b[1], &b[2], opt(0), opt(1), opt(2), opt(3), opt(4), opt(5))
    };
    let g = match (res, regular) {
        (Ok(g), true) => g,
        (Err(_), false) => return Ok(()),
        (Err(e), true) => fail!("metrics of {base:?}: {e}"),
        (Ok(g), false) => fail!("metrics of dependent base vectors {base:?}: determinant {g}"),
    };
    let dot = |a: &Vector, b: &Vector| (0..ndim).map(|d| a[d] * b[d]).sum::<f64>();
    let len = |a: &Vector| dot(a, a).sqrt();
    for i in 0..ndim {
        for j in 0..ndim {
            let gij = dot(&b[i], &b[j]);
            let l = len(&b[i]) * len(&b[j]);
            ensure!((met.g_mat.get(i, j) - gij).abs() <= 1e-14 * l, "covariant metric ({i},{j}) of {base:?}");
            let one = dot(&met.g_ctr[i], &b[j]);
            ensure!((one - (i == j) as usize as f64).abs() <= 1e-11 * (1.0 + len(&met.g_ctr[i]) * len(&b[j])), "g^{i}.g_{j} is {one} for {base:?}");
            let gg = dot(&met.g_ctr[i], &met.g_ctr[j]);
            let l = len(&met.g_ctr[i]) * len(&met.g_ctr[j]);
            ensure!((met.gg_mat.get(i, j) - gg).abs() <= 1e-10 * l, "contravariant metric ({i},{j}) of {base:?} is {} instead of {gg}", met.gg_mat.get(i, j));
        }
        for d in 0..ndim {
            ensure!(met.g_cov[i][d] == b[i][d], "base vector {i} of {base:?}");
        }
    }
    let det = if ndim == 2 {
        base[0][0] * base[1][1] - base[0][1] * base[1][0]
    } else {
        base[0][0] * (base[1][1] * base[2][2] - base[1][2] * base[2][1]) - base[0][1] * (base[1][0] * base[2][2] - base[1][2] * base[2][0]) + base[0][2] * (base[1][0] * base[2][1] - base[1][1] * base[2][0])
    };
    let mut vol = 1.0;
    for x in &b {
        vol *= dot(x, x);
    }
    ensure!((g - det * det).abs() <= 1e-13 * vol, "determinant {g} of {base:?} instead of {}", det * det);
    if !homogeneous {
        let index = |i: usize, j: usize| if i == j { i } else if ndim == 2 { 2 } else { i + j + 2 };
        for k in 0..ndim {
            let mut ell = 0.0;
            let mut size = 0.0;
            for i in 0..ndim {
                for j in 0..ndim {
                    let want = dot(&c[index(i, j)], &met.g_ctr[k]);
                    let l = len(&c[index(i, j)]) * len(&met.g_ctr[k]);
                    let got = met.christoffel_second[k][i][j];
                    ensure!((got - want).abs() <= 1e-13 * l, "Christoffel symbol ({k},{i},{j}) of {base:?} is {got} instead of {want}");
                    ell += want * met.gg_mat.get(i, j);
                    size += (want * met.gg_mat.get(i, j)).abs();
                }
            }
            let got = met.ell_coefficient_for_laplacian(k);
            ensure!((got - ell).abs() <= 1e-13 * size, "Laplacian coefficient {k} of {base:?} is {got} instead of {ell}");
        }
    }
    Ok(())
}

fn metrics(run: &mut Run) {
    let scales = [1.0, 1e-5, 3e-9, 1e4, 7e10];
    let second = |n: usize, ndim: usize, scale: f64| -> Vec<Vec<f64>> { (0..n).map(|i| (0..ndim).map(|d| scale * ((i * 3 + d * 5) as f64 - 4.5)).collect()).collect() };
    run.section("metrics_2d", 625, |ctx, k| {
        let e: Vec<f64> = digits(k, 5, 4).iter().map(|i| *i as f64 - 2.0).collect();
        let regular = e[0] * e[3] != e[1] * e[2];
        for (q, scale) in scales.iter().enumerate() {
            for stretch in [1.0, 1e-6] {
                for homogeneous in [false, true] {
                    ctx.case(&format!("metrics2d/{k}/{q}/{stretch}/{homogeneous}"), |t| {
                        let mut met = Metrics::new(2, homogeneous);
                        let base = vec![vec![scale * e[0], scale * e[1]], vec![scale * stretch * e[2], scale * stretch * e[3]]];
                        t.state_f64(&base.concat());
                        if !regular && (*scale != 1.0 || stretch != 1.0) {
                            t.trivial();
                            return Ok(());
                        }
                        let sec = second(3, 2, *scale);
                        metric(t, &mut met, 2, &base, &sec, homogeneous, regular)?;
                        // used again with other vectors, then with the same ones
                        metric(t, &mut met, 2, &[vec![1.0, 2.0], vec![-1.0, 0.5]], &second(3, 2, 1.0), homogeneous, true)?;
                        metric(t, &mut met, 2, &base, &sec, homogeneous, regular)
                    });
                }
            }
        }
    });
    let menu: &[f64] = if run.thorough() { &[-1.0, 0.0, 1.0, 2.0] } else { &[-1.0, 0.0, 2.0] };
    let n = menu.len();
    run.section("metrics_3d", pow(n, 9), |ctx, k| {
        let e: Vec<f64> = digits(k, n, 9).iter().map(|i| menu[*i]).collect();
        let det = e[0] * (e[4] * e[8] - e[5] * e[7]) - e[1] * (e[3] * e[8] - e[5] * e[6]) + e[2] * (e[3] * e[7] - e[4] * e[6]);
        for (q, scale) in [1.0, 1e-4, 1e5].iter().enumerate() {
            if det == 0.0 && q > 0 {
                continue;
            }
            ctx.case(&format!("metrics3d/{k}/{q}"), |t| {
                let homogeneous = k % 2 == 1;
                let mut met = Metrics::new(3, homogeneous);
                let base: Vec<Vec<f64>> = (0..3).map(|i| (0..3).map(|d| scale * e[3 * i + d]).collect()).collect();
                t.state_f64(&base.concat());
                metric(t, &mut met, 3, &base, &second(6, 3, *scale), homogeneous, det != 0.0)
            });
        }
    });
}

fn refused(run: &mut Run) {
    run.section("refused", 1, |ctx, _| {
        for (n0, n1, n2) in (0..343).map(|k| (k % 7, k / 7 % 7, k / 49)) {
            ctx.case(&format!("refused/lists/{n0}/{n1}/{n2}"), |t| {
                t.op();
                let list = |n: usize| -> Vec<FnVec1Param1> { (0..n).map(|_| Box::new(|x: &mut Vector, _: f64| x.fill(0.0)) as FnVec1Param1).collect() };
                let good = n0 == 4 && n1 == 4;
                let res = Transfinite2d::new(list(n0), list(n1), if n2 == 6 { None } else { Some(list(n2)) });
                ensure!(res.is_ok() == (good && (n2 == 4 || n2 == 6)), "lists of {n0}, {n1}, {n2} boundaries");
                let one = |n: usize| -> Vec<FnVec1Param2> { (0..n).map(|_| Box::new(|x: &mut Vector, _: f64, _: f64| x.fill(0.0)) as FnVec1Param2).collect() };
                let two = |n: usize| -> Vec<FnVec2Param2> { (0..n).map(|_| Box::new(|x: &mut Vector, y: &mut Vector, _: f64, _: f64| { x.fill(0.0); y.fill(0.0) }) as FnVec2Param2).collect() };
                let three = |n: usize| -> Vec<FnVec3Param2> { (0..n).map(|_| Box::new(|x: &mut Vector, y: &mut Vector, z: &mut Vector, _: f64, _: f64| { x.fill(0.0); y.fill(0.0); z.fill(0.0) }) as FnVec3Param2).collect() };
                let res = Transfinite3d::new(one(n0 + 2), two(n1 + 2), if n2 == 6 { None } else { Some(three(n2 + 2)) });
                ensure!(res.is_ok() == (good && (n2 == 4 || n2 == 6)), "lists of {}, {}, {} faces", n0 + 2, n1 + 2, n2 + 2);
                Ok(())
            });
        }
        for k in 0..256 {
            ctx.case(&format!("refused/metrics/{k}"), |t| {
                t.op();
                let (ndim, homogeneous) = (2 + (k & 1), k & 2 == 2);
                let given = |b: usize| k >> b & 1 == 1;
                let mut met = Metrics::new(ndim, homogeneous);
                let (a, b, c) = (Vector::from(&[1.0, 0.0]), Vector::from(&[0.0, 1.0]), Vector::from(&[0.5, 0.5]));
                let bad = Vector::from(&[1.0, 0.0, 0.0]);
                let opt = |b: usize| if given(b) { Some(&c) } else { None };
                let r = met.calculate_2d(if given(5) { &bad } else { &a }, if given(6) { &bad } else { &b }, opt(2), opt(3), opt(4));
                let want = ndim == 2 && !given(5) && !given(6) && (homogeneous || (given(2) && given(3) && given(4)));
                ensure!(r.is_ok() == want, "2D metrics, case {k}");
                let e = [Vector::from(&[1.0, 0.0, 0.0]), Vector::from(&[0.0, 1.0, 0.0]), Vector::from(&[0.0, 0.0, 1.0])];
                let opt = |b: usize| if given(b) { Some(&e[0]) } else { None };
                let r = met.calculate_3d(&e[0], &e[1], &e[2], opt(2), opt(3), opt(4), opt(5), opt(6), opt(7));
                let want = ndim == 3 && (homogeneous || (2..8).all(given));
                ensure!(r.is_ok() == want, "3D metrics, case {k}");
                // vectors of two components
                let pick = |b: usize| if given(b) { &a } else { &e[b - 5] };
                let r = met.calculate_3d(pick(5), pick(6), pick(7), Some(&e[0]), Some(&e[0]), Some(&e[0]), Some(&e[0]), Some(&e[0]), Some(&e[0]));
                ensure!(r.is_ok() == (ndim == 3 && !given(5) && !given(6) && !given(7)), "3D metrics of vectors of two components, case {k}");
                Ok(())
            });
        }
    });
}

pub fn explore(run: &mut Run) {
    run.level("exploration", "every map of the bounded family is evaluated at every lattice point and compared, with its first and second derivatives, with the blending of the boundary values written down from its definition; every metric quantity is compared with its definition");
    run.assume("polynomial boundaries span all boundary curves used by linearity of the blending; sample maps use their documented geometry");
    maps_2d(run);
    maps_3d(run);
    metrics(run);
    refused(run);
}
