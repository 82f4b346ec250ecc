//! P01: grids

use mc::*;
use russell_pde::*;

/// Everything a 1D grid reports against the coordinates it should have
fn grid_1d(t: &mut Trace, grid: &Grid1d, xx: &[f64], tol: f64) -> Outcome {
    let n = xx.len();
    t.ops(n);
    t.state_f64(xx);
    ensure!(grid.nx() == n, "nx is {} instead of {n}", grid.nx());
    let mut seen = vec![0; n];
    let mut wrong = String::new();
    grid.for_each_coord(|m, x| {
        if m >= n || x != grid.coord(m) {
            wrong = format!("for_each_coord visits node {m} at {x}");
        } else {
            seen[m] += 1;
        }
    });
    ensure!(wrong.is_empty(), "{wrong}");
    ensure!(seen.iter().all(|s| *s == 1), "for_each_coord visits the nodes {seen:?} times");
    for m in 0..n {
        ensure!((grid.coord(m) - xx[m]).abs() <= tol, "node {m} is at {} instead of {}", grid.coord(m), xx[m]);
        ensure!(m == 0 || grid.coord(m) > grid.coord(m - 1), "coordinates do not increase at {m}");
        ensure!(grid.is_xmin(m) == (m == 0), "is_xmin({m})");
        ensure!(grid.is_xmax(m) == (m + 1 == n), "is_xmax({m})");
        ensure!(grid.on_boundary(m) == (m == 0 || m + 1 == n), "on_boundary({m})");
    }
    ensure!(grid.get_nodes_on_side(Side::Xmin) == [0], "nodes on xmin");
    ensure!(grid.get_nodes_on_side(Side::Xmax) == [n - 1], "nodes on xmax");
    let (a, b) = grid.get_boundary_nodes();
    ensure!(a == [0] && b == [n - 1], "boundary nodes");
    Ok(())
}

/// Everything a 2D grid reports against the coordinates it should have
fn grid_2d(t: &mut Trace, grid: &Grid2d, xx: &[f64], yy: &[f64], tol: f64) -> Outcome {
    let (nx, ny) = (xx.len(), yy.len());
    t.ops(nx * ny);
    t.state_f64(xx);
    t.state_f64(yy);
    ensure!(grid.nx() == nx && grid.ny() == ny && grid.size() == nx * ny, "sizes");
    for (what, got, want) in [
        ("xmin", grid.xmin(), xx[0]),
        ("xmax", grid.xmax(), xx[nx - 1]),
        ("ymin", grid.ymin(), yy[0]),
        ("ymax", grid.ymax(), yy[ny - 1]),
    ] {
        ensure!((got - want).abs() <= tol, "{what} is {got} instead of {want}");
    }
    let mut used = vec![false; nx * ny];
    let mut sides: [Vec<usize>; 4] = Default::default();
    for j in 0..ny {
        for i in 0..nx {
            let m = grid.get_m(i, j);
            ensure!(m < nx * ny && !used[m], "node number {m} of ({i},{j}) out of range or used twice");
            used[m] = true;
            ensure!(grid.get_ij(m) == (i, j), "get_ij({m}) is {:?} instead of ({i},{j})", grid.get_ij(m));
            let (x, y) = grid.coord(m);
            ensure!(
                (x - xx[i]).abs() <= tol && (y - yy[j]).abs() <= tol,
                "node ({i},{j}) is at ({x},{y}) instead of ({},{})",
                xx[i],
                yy[j]
            );
            let on = [i == 0, i + 1 == nx, j == 0, j + 1 == ny];
            let got = [grid.is_xmin(m), grid.is_xmax(m), grid.is_ymin(m), grid.is_ymax(m)];
            ensure!(on == got, "sides of node ({i},{j}) are {got:?}");
            ensure!(grid.on_boundary(m) == on.iter().any(|b| *b), "on_boundary of ({i},{j})");
            let corner = (on[0] || on[1]) && (on[2] || on[3]);
            ensure!(grid.is_corner(m) == corner, "is_corner of ({i},{j})");
            for s in 0..4 {
                if on[s] {
                    sides[s].push(m);
                }
            }
        }
    }
    for s in &mut sides {
        s.sort();
    }
    let (a, b, c, d) = grid.get_boundary_nodes();
    let sorted = |v: &[usize]| {
        let mut w = v.to_vec();
        w.sort();
        w
    };
    for (s, (side, all)) in [(Side::Xmin, a), (Side::Xmax, b), (Side::Ymin, c), (Side::Ymax, d)].into_iter().enumerate() {
        ensure!(sorted(grid.get_nodes_on_side(side)) == sides[s], "nodes on side {s}: {:?}", grid.get_nodes_on_side(side));
        ensure!(sorted(all) == sides[s], "boundary nodes of side {s}: {all:?}");
        let mut visited = Vec::new();
        match s {
            0 => grid.for_each_node_xmin(|m| visited.push(*m)),
            1 => grid.for_each_node_xmax(|m| visited.push(*m)),
            2 => grid.for_each_node_ymin(|m| visited.push(*m)),
            _ => grid.for_each_node_ymax(|m| visited.push(*m)),
        }
        ensure!(sorted(&visited) == sides[s], "visited nodes of side {s}: {visited:?}");
    }
    let mut seen = vec![0; nx * ny];
    let mut wrong = String::new();
    grid.for_each_coord(|m, x, y| {
        if m >= nx * ny || (x, y) != grid.coord(m) {
            wrong = format!("for_each_coord visits node {m} at ({x},{y})");
        } else {
            seen[m] += 1;
        }
    });
    ensure!(wrong.is_empty(), "{wrong}");
    ensure!(seen.iter().all(|s| *s == 1), "for_each_coord visits the nodes {seen:?} times");
    Ok(())
}

fn spacing(got: Option<f64>, want: Option<f64>, tol: f64, what: &str) -> Outcome {
    match (got, want) {
        (Some(a), Some(b)) => ensure!((a - b).abs() <= tol, "{what} is {a} instead of {b}"),
        (None, None) => (),
        (None, Some(b)) => fail!("no {what} although the spacing is uniform ({b})"),
        (Some(a), None) => fail!("{what} is {a} although the spacing is not uniform"),
    }
    Ok(())
}

/// Domains: lower end and length
const DOMAINS: [(f64, f64); 14] = [
    (0.0, 1.0),
    (-1.0, 2.0),
    (-0.5, 1.0),
    (0.1, 0.7),
    (3.0, 1e-3),
    (0.0, 1e-8),
    (-1e-8, 3e-8),
    (0.0, 1e-200),
    (0.0, 1e5),
    (-1e9, 2e9),
    (1e6, 1.0),
    (-7e12, 1e13),
    (0.0, 1e200),
    (-1.0 / 3.0, 1e-5),
];

fn biggest(a: f64, b: f64) -> f64 {
    f64::max(a.abs(), b.abs())
}

fn uniform(run: &mut Run) {
    let nmax = run.pick(200, 400);
    run.section("uniform_1d", nmax - 1, |ctx, k| {
        let n = k + 2;
        for (d, (xmin, len)) in DOMAINS.iter().enumerate() {
            ctx.case(&format!("uniform1d/n{n}/d{d}"), |t| {
                let xmax = xmin + len;
                let grid = Grid1d::new_uniform(*xmin, xmax, n)?;
                let big = biggest(*xmin, xmax);
                let xx: Vec<f64> = (0..n).map(|i| xmin + len * (i as f64 / (n - 1) as f64)).collect();
                grid_1d(t, &grid, &xx, 8.0 * f64::EPSILON * big)?;
                ensure!(grid.coord(0) == *xmin, "first node at {}", grid.coord(0));
                spacing(grid.get_dx(), Some(len / (n - 1) as f64), 8.0 * f64::EPSILON * big, "dx")
            });
        }
    });
    let nmax = run.pick(16, 40);
    run.section("uniform_2d", (nmax - 1) * (nmax - 1), |ctx, k| {
        let (nx, ny) = (k % (nmax - 1) + 2, k / (nmax - 1) + 2);
        for (d, (xmin, lx)) in DOMAINS.iter().enumerate() {
            for (e, (ymin, ly)) in DOMAINS.iter().enumerate() {
                ctx.case(&format!("uniform2d/n{nx}x{ny}/d{d}/e{e}"), |t| {
                    let (xmax, ymax) = (xmin + lx, ymin + ly);
                    let grid = Grid2d::new_uniform(*xmin, xmax, *ymin, ymax, nx, ny)?;
                    let xx: Vec<f64> = (0..nx).map(|i| xmin + lx * (i as f64 / (nx - 1) as f64)).collect();
                    let yy: Vec<f64> = (0..ny).map(|i| ymin + ly * (i as f64 / (ny - 1) as f64)).collect();
                    let (bx, by) = (biggest(*xmin, xmax), biggest(*ymin, ymax));
                    let tol = 8.0 * f64::EPSILON;
                    if bx == by {
                        grid_2d(t, &grid, &xx, &yy, tol * bx)?;
                    } else {
                        // coordinates of different magnitude: check each with its own tolerance
                        for m in 0..nx * ny {
                            let (i, j) = grid.get_ij(m);
                            let (x, y) = grid.coord(m);
                            ensure!((x - xx[i]).abs() <= tol * bx && (y - yy[j]).abs() <= tol * by, "node ({i},{j}) at ({x},{y})");
                        }
                        grid_2d(t, &grid, &xx, &yy, tol * f64::max(bx, by))?;
                    }
                    ensure!(!grid.is_chebyshev_gauss_lobatto(), "claims Chebyshev-Gauss-Lobatto points");
                    let dd = grid.get_dx_dy();
                    spacing(dd.map(|d| d.0), Some(lx / (nx - 1) as f64), tol * bx, "dx")?;
                    spacing(dd.map(|d| d.1), Some(ly / (ny - 1) as f64), tol * by, "dy")
                });
            }
        }
    });
}

/// Coordinates from gaps
fn from_gaps(gaps: &[usize], unit: f64, start: f64) -> Vec<f64> {
    let mut x = 0.0;
    let mut xx = vec![start];
    for g in gaps {
        x += *g as f64;
        xx.push(start + x * unit);
    }
    xx
}

fn nonuniform(run: &mut Run) {
    let units = [1.0, 1e-6, 1e-9, 3e-13, 1e-300, 0.1, 7e8, 1e300];
    let nmax = run.pick(9, 11);
    run.section("gaps_1d", nmax, |ctx, k| {
        let ng = k + 1;
        let menu: &[usize] = &[10, 11, 20];
        for g in 0..pow(3, ng) {
            let gaps: Vec<usize> = digits(g, 3, ng).iter().map(|i| menu[*i]).collect();
            for (u, unit) in units.iter().enumerate() {
                for start in [0.0, -5.0, 1000.0] {
                    ctx.case(&format!("gaps1d/n{ng}/{g}/u{u}/s{start}"), |t| {
                        let xx = from_gaps(&gaps, *unit, start * unit);
                        let grid = Grid1d::new(&xx)?;
                        grid_1d(t, &grid, &xx, 0.0)?;
                        let same = gaps.iter().all(|q| *q == gaps[0]);
                        let big = biggest(xx[0], xx[ng]);
                        spacing(grid.get_dx(), if same { Some(gaps[0] as f64 * unit) } else { None }, 4.0 * f64::EPSILON * big, "dx")
                    });
                }
            }
        }
    });
    let nmax = run.pick(3, 5);
    let mut lists = Vec::new();
    for ng in 1..=nmax {
        for g in 0..pow(2, ng) {
            lists.push(digits(g, 2, ng).iter().map(|i| [10, 13][*i]).collect::<Vec<usize>>());
        }
    }
    run.section("gaps_2d", lists.len() * lists.len(), |ctx, k| {
        let (gx, gy) = (&lists[k % lists.len()], &lists[k / lists.len()]);
        for (u, ux) in units.iter().enumerate() {
            for (v, uy) in units.iter().enumerate() {
                ctx.case(&format!("gaps2d/x{gx:?}/y{gy:?}/u{u}/v{v}"), |t| {
                    let (xx, yy) = (from_gaps(gx, *ux, -3.0 * ux), from_gaps(gy, *uy, 20.0 * uy));
                    let grid = Grid2d::new(&xx, &yy)?;
                    grid_2d(t, &grid, &xx, &yy, 0.0)?;
                    ensure!(!grid.is_chebyshev_gauss_lobatto(), "claims Chebyshev-Gauss-Lobatto points");
                    let same = gx.iter().all(|q| *q == gx[0]) && gy.iter().all(|q| *q == gy[0]);
                    let dd = grid.get_dx_dy();
                    let tol = 4.0 * f64::EPSILON;
                    spacing(dd.map(|d| d.0), if same { Some(gx[0] as f64 * ux) } else { None }, tol * biggest(xx[0], xx[gx.len()]), "dx")?;
                    spacing(dd.map(|d| d.1), if same { Some(gy[0] as f64 * uy) } else { None }, tol * biggest(yy[0], yy[gy.len()]), "dy")
                });
            }
        }
    });
    let nmax = run.pick(40, 100);
    run.section("chebyshev", nmax - 1, |ctx, k| {
        let points = |n: usize| -> Vec<f64> { (0..n).map(|i| -(std::f64::consts::PI * i as f64 / (n - 1) as f64).cos()).collect() };
        let nx = k + 2;
        ctx.case(&format!("cgl1d/n{nx}"), |t| {
            let grid = Grid1d::new_chebyshev_gauss_lobatto(nx)?;
            grid_1d(t, &grid, &points(nx), 1e-15)?;
            spacing(grid.get_dx(), if nx <= 3 { Some(2.0 / (nx - 1) as f64) } else { None }, 1e-15, "dx")
        });
        for ny in 2..=12 {
            ctx.case(&format!("cgl2d/n{nx}x{ny}"), |t| {
                let grid = Grid2d::new_chebyshev_gauss_lobatto(nx, ny)?;
                ensure!(grid.is_chebyshev_gauss_lobatto(), "does not claim Chebyshev-Gauss-Lobatto points");
                grid_2d(t, &grid, &points(nx), &points(ny), 1e-15)?;
                ensure!(grid.get_dx_dy().is_some() == (nx <= 3 && ny <= 3), "dx and dy are {:?}", grid.get_dx_dy());
                Ok(())
            });
        }
    });
}

fn invalid(run: &mut Run) {
    let menu = [0.0, 1.0, -2.0, 1.5, f64::NAN, f64::INFINITY, f64::NEG_INFINITY];
    let good = |v: &[f64]| v.len() >= 2 && v.iter().all(|x| x.is_finite()) && v.windows(2).all(|w| w[1] > w[0]);
    let lmax = run.pick(5, 6);
    let list = |len: usize, k: usize| -> Vec<f64> { digits(k, 7, len).iter().map(|i| menu[*i]).collect() };
    for len in 0..=lmax {
        run.section(&format!("any_coordinates_1d_{len}"), pow(7, len), |ctx, k| {
            ctx.case(&format!("any1d/{len}/{k}"), |t| {
                let xx = list(len, k);
                t.state_f64(&xx);
                t.op();
                match (Grid1d::new(&xx), good(&xx)) {
                    (Ok(g), true) => grid_1d(t, &g, &xx, 0.0),
                    (Err(_), false) => Ok(()),
                    (Ok(_), false) => fail!("invalid coordinates {xx:?} accepted"),
                    (Err(e), true) => fail!("valid coordinates {xx:?} refused: {e}"),
                }
            });
        });
    }
    run.section("any_coordinates_2d", 1 + 7 + 49 + 343, |ctx, k| {
        let nth = |k: usize| {
            let (mut len, mut k) = (0, k);
            while k >= pow(7, len) {
                k -= pow(7, len);
                len += 1;
            }
            list(len, k)
        };
        let xx = nth(k);
        for l in 0..1 + 7 + 49 + 343 {
            ctx.case(&format!("any2d/{k}/{l}"), |t| {
                let yy = nth(l);
                t.state_f64(&xx);
                t.state_f64(&yy);
                t.op();
                match (Grid2d::new(&xx, &yy), good(&xx) && good(&yy)) {
                    (Ok(g), true) => grid_2d(t, &g, &xx, &yy, 0.0),
                    (Err(_), false) => Ok(()),
                    (Ok(_), false) => fail!("invalid coordinates {xx:?} {yy:?} accepted"),
                    (Err(e), true) => fail!("valid coordinates {xx:?} {yy:?} refused: {e}"),
                }
            });
        }
    });
    run.section("any_ends", 49 * 49, |ctx, k| {
        let d = digits(k, 7, 4);
        let (a, b, c, e) = (menu[d[0]], menu[d[1]], menu[d[2]], menu[d[3]]);
        for n in 0..4 {
            for m in 0..4 {
                ctx.case(&format!("ends/{k}/{n}x{m}"), |t| {
                    t.op();
                    t.state_f64(&[a, b, c, e, n as f64, m as f64]);
                    let gx = n >= 2 && good(&[a, b]);
                    let gy = m >= 2 && good(&[c, e]);
                    ensure!(Grid1d::new_uniform(a, b, n).is_ok() == gx, "1D uniform grid over [{a},{b}] with {n} points");
                    ensure!(Grid2d::new_uniform(a, b, c, e, n, m).is_ok() == (gx && gy), "2D uniform grid over [{a},{b}] x [{c},{e}] with {n} x {m} points");
                    ensure!(Grid1d::new_chebyshev_gauss_lobatto(n).is_ok() == (n >= 2), "1D Chebyshev grid with {n} points");
                    ensure!(Grid2d::new_chebyshev_gauss_lobatto(n, m).is_ok() == (n >= 2 && m >= 2), "2D Chebyshev grid with {n} x {m} points");
                    Ok(())
                });
            }
        }
    });
}

/// Many nodes with one gap or coordinate out of place at every position
fn one_deviation(run: &mut Run) {
    let sizes = [6, 7, 8, 9, 15, 16, 17, 21, 22, 33, 65];
    run.section("one_deviation", sizes.len(), |ctx, k| {
        let n = sizes[k];
        for at in 0..n {
            for kind in 0..6 {
                ctx.case(&format!("deviation/n{n}/{at}/{kind}"), |t| {
                    t.ops(3);
                    let mut xx: Vec<f64> = (0..n).map(|i| i as f64 * 0.5 - 3.0).collect();
                    let mut valid = true;
                    match kind {
                        0 => (),
                        1 => xx[at] += if at == 0 { -0.125 } else { 0.125 },
                        2 => xx.iter_mut().skip(at).for_each(|x| *x += 0.25),
                        3 => (xx[at], valid) = (if at == 0 { xx[1] } else { xx[at - 1] }, false),
                        4 => (xx[at], valid) = (f64::NAN, false),
                        _ => (xx[at], valid) = (if at + 1 < n { xx[at + 1] + 1.0 } else { -50.0 }, false),
                    }
                    t.state_f64(&xx);
                    let even = kind == 0 || (kind == 2 && at == 0);
                    let yy = [0.0, 0.5, 1.0];
                    let grids = (Grid1d::new(&xx), Grid2d::new(&xx, &yy), Grid2d::new(&yy, &xx));
                    if !valid {
                        ensure!(grids.0.is_err() && grids.1.is_err() && grids.2.is_err(), "invalid coordinates {xx:?} accepted");
                        return Ok(());
                    }
                    let (a, b, c) = (grids.0?, grids.1?, grids.2?);
                    grid_1d(t, &a, &xx, 0.0)?;
                    grid_2d(t, &b, &xx, &yy, 0.0)?;
                    grid_2d(t, &c, &yy, &xx, 0.0)?;
                    spacing(a.get_dx(), if even { Some(0.5) } else { None }, 1e-14, "dx")?;
                    for g in [&b, &c] {
                        let dd = g.get_dx_dy();
                        spacing(dd.map(|d| d.0), if even { Some(0.5) } else { None }, 1e-14, "dx")?;
                        spacing(dd.map(|d| d.1), if even { Some(0.5) } else { None }, 1e-14, "dy")?;
                    }
                    Ok(())
                });
            }
        }
    });
}

pub fn explore(run: &mut Run) {
    run.level("exploration", "every grid of the bounded family is built and every node, index pair, side and spacing it reports is compared with the coordinates it was given");
    run.assume("IEEE double arithmetic; uniform grids may round each coordinate by a few units in the last place of the larger end of the domain");
    uniform(run);
    nonuniform(run);
    invalid(run);
    one_deviation(run);
}
