//! Reference models: rooted trees, polynomials, dense linear algebra

use mc::*;
use russell_lab::Vector;
use russell_ode::{Method, Params, System};
use russell_sparse::{CooMatrix, Sym};
use std::sync::Arc;

pub const ALL: [Method; 16] = [
    Method::Radau5,
    Method::BwEuler,
    Method::FwEuler,
    Method::Rk2,
    Method::Rk3,
    Method::Heun3,
    Method::Rk4,
    Method::Rk4alt,
    Method::MdEuler,
    Method::Merson4,
    Method::Zonneveld4,
    Method::Fehlberg4,
    Method::DoPri5,
    Method::Verner6,
    Method::Fehlberg7,
    Method::DoPri8,
];

/// Order of each method and order of its error estimator (zero if there is none), as documented
pub fn orders(method: Method) -> (usize, usize) {
    match method {
        Method::Radau5 => (5, 3),
        Method::BwEuler | Method::FwEuler => (1, 0),
        Method::Rk2 => (2, 0),
        Method::Rk3 | Method::Heun3 => (3, 0),
        Method::Rk4 | Method::Rk4alt => (4, 0),
        Method::MdEuler => (2, 1),
        Method::Merson4 => (4, 3),
        Method::Zonneveld4 => (4, 3),
        Method::Fehlberg4 => (4, 4),
        Method::DoPri5 => (5, 4),
        Method::Verner6 => (6, 5),
        Method::Fehlberg7 => (7, 7),
        Method::DoPri8 => (8, 5),
    }
}

pub fn implicit(method: Method) -> bool {
    matches!(method, Method::Radau5 | Method::BwEuler)
}

/// Rooted tree: children of each node; node zero is the root
pub type Tree = Vec<Vec<usize>>;

fn graft(children: &[&Tree]) -> Tree {
    let mut all: Tree = vec![vec![]];
    for c in children {
        let offset = all.len();
        all[0].push(offset);
        for node in c.iter() {
            all.push(node.iter().map(|k| k + offset).collect());
        }
    }
    all
}

/// All rooted trees with up to `top` nodes
pub fn trees(top: usize) -> Vec<Tree> {
    let mut by_order: Vec<Vec<Tree>> = vec![vec![], vec![vec![vec![]]]];
    for n in 2..=top {
        // multisets of smaller trees with n-1 nodes in total
        let flat: Vec<(usize, Tree)> = (1..n).flat_map(|k| by_order[k].iter().map(move |t| (k, t.clone()))).collect();
        let mut found = vec![];
        fn extend(flat: &[(usize, Tree)], from: usize, left: usize, picked: &mut Vec<usize>, found: &mut Vec<Tree>) {
            if left == 0 {
                let c: Vec<&Tree> = picked.iter().map(|i| &flat[*i].1).collect();
                found.push(graft(&c));
                return;
            }
            for i in from..flat.len() {
                if flat[i].0 <= left {
                    picked.push(i);
                    extend(flat, i, left - flat[i].0, picked, found);
                    picked.pop();
                }
            }
        }
        extend(&flat, 0, n - 1, &mut vec![], &mut found);
        by_order.push(found);
    }
    by_order.into_iter().flatten().collect()
}

fn factor(tree: &Tree, c: usize, explicit: bool, x: f64, y: &Vector) -> f64 {
    if explicit && tree[c].is_empty() {
        x
    } else {
        y[c]
    }
}

/// Each node grows with the product of its children; leaves grow with slope one.
/// With `explicit`, leaves are replaced by x where they are used
pub fn tree_system<'a, A: 'a>(tree: Arc<Tree>, explicit: bool, analytical: bool) -> System<'a, A> {
    let n = tree.len();
    let t = tree.clone();
    let mut system = System::new(n, move |f: &mut Vector, x: f64, y: &Vector, _: &mut A| {
        for i in 0..n {
            f[i] = t[i].iter().map(|c| factor(&t, *c, explicit, x, y)).product();
        }
        Ok(())
    });
    if analytical {
        let t = tree.clone();
        system
            .set_jacobian(None, Sym::No, move |jj: &mut CooMatrix, m: f64, x: f64, y: &Vector, _: &mut A| {
                jj.reset();
                for i in 0..n {
                    for c in &t[i] {
                        if explicit && t[*c].is_empty() {
                            continue;
                        }
                        let others: f64 = t[i].iter().filter(|k| *k != c).map(|k| factor(&t, *k, explicit, x, y)).product();
                        jj.put(i, *c, m * others)?;
                    }
                }
                // an entry on the diagonal so that the structure is never empty
                jj.put(0, 0, 0.0)?;
                Ok(())
            })
            .unwrap();
    }
    system
}

/// The same system multiplied by a mass matrix with ones on the diagonal, 1/2 below, -1/4 above
pub fn tree_system_mass<'a, A: 'a>(tree: Arc<Tree>, explicit: bool) -> System<'a, A> {
    let n = tree.len();
    let mass = move |i: usize, j: usize| match i as i32 - j as i32 {
        0 => 1.0,
        1 => 0.5,
        -1 => -0.25,
        _ => 0.0,
    };
    let t = tree.clone();
    let mut system = System::new(n, move |f: &mut Vector, x: f64, y: &Vector, _: &mut A| {
        let g: Vec<f64> = (0..n).map(|i| t[i].iter().map(|c| factor(&t, *c, explicit, x, y)).product()).collect();
        for i in 0..n {
            f[i] = (0..n).map(|j| mass(i, j) * g[j]).sum();
        }
        Ok(())
    });
    let t = tree.clone();
    system
        .set_jacobian(None, Sym::No, move |jj: &mut CooMatrix, m: f64, x: f64, y: &Vector, _: &mut A| {
            jj.reset();
            for c in 0..n {
                for i in 0..n {
                    let mut sum = 0.0;
                    for k in 0..n {
                        if t[k].contains(&c) && !(explicit && t[c].is_empty()) {
                            sum += mass(i, k) * t[k].iter().filter(|o| **o != c).map(|o| factor(&t, *o, explicit, x, y)).product::<f64>();
                        }
                    }
                    jj.put(i, c, m * sum)?;
                }
            }
            Ok(())
        })
        .unwrap();
    system
        .set_mass(Some(3 * n - 2), Sym::No, move |mm: &mut CooMatrix| {
            for i in 0..n {
                for j in 0..n {
                    if mass(i, j) != 0.0 {
                        mm.put(i, j, mass(i, j)).unwrap();
                    }
                }
            }
        })
        .unwrap();
    system
}

/// Solution at x0 + t: polynomials by repeated integration; `start` holds the values at x0
pub fn tree_solution(tree: &Tree, start: &[f64], t: f64) -> Vec<f64> {
    let n = tree.len();
    let mut poly: Vec<Vec<f64>> = vec![vec![]; n];
    // children have larger numbers than their parent
    for i in (0..n).rev() {
        let mut p = vec![1.0];
        for c in &tree[i] {
            let mut q = vec![0.0; p.len() + poly[*c].len() - 1];
            for (a, pa) in p.iter().enumerate() {
                for (b, cb) in poly[*c].iter().enumerate() {
                    q[a + b] += pa * cb;
                }
            }
            p = q;
        }
        let mut out = vec![start[i]];
        out.extend(p.iter().enumerate().map(|(k, c)| c / (k + 1) as f64));
        poly[i] = out;
    }
    poly.iter().map(|p| p.iter().rev().fold(0.0, |a, c| a * t + c)).collect()
}

/// Dense square matrix times vector
pub fn times(a: &[Vec<f64>], v: &[f64]) -> Vec<f64> {
    a.iter().map(|r| r.iter().zip(v).map(|(x, y)| x * y).sum()).collect()
}

/// Solves a small dense system
pub fn solve(a: &[Vec<f64>], b: &[f64]) -> Vec<f64> {
    let n = b.len();
    let (mut a, mut b) = (a.to_vec(), b.to_vec());
    for k in 0..n {
        let p = (k..n).max_by(|i, j| a[*i][k].abs().partial_cmp(&a[*j][k].abs()).unwrap()).unwrap();
        a.swap(k, p);
        b.swap(k, p);
        for i in k + 1..n {
            let c = a[i][k] / a[k][k];
            for j in k..n {
                let v = a[k][j];
                a[i][j] -= c * v;
            }
            b[i] -= c * b[k];
        }
    }
    for k in (0..n).rev() {
        for j in k + 1..n {
            b[k] -= a[k][j] * b[j];
        }
        b[k] /= a[k][k];
    }
    b
}

/// Parameters with tight tolerances for the iterations
pub fn strict(method: Method) -> Params {
    let mut params = Params::new(method);
    match method {
        Method::Radau5 => params.set_tolerances(1e-10, 1e-10, Some(1e-4)).unwrap(),
        _ => params.set_tolerances(1e-11, 1e-11, Some(1e-2)).unwrap(),
    }
    params.newton.n_iteration_max = 20;
    params.radau5.concurrent = false;
    params
}

pub fn compare(what: &str, got: &Vector, want: &[f64], tol: f64) -> Outcome {
    ensure!(got.dim() == want.len(), "{what}: dimension {}", got.dim());
    for i in 0..want.len() {
        ensure!((got[i] - want[i]).abs() <= tol * want[i].abs().max(1.0), "{what}: component {i} is {} instead of {}", got[i], want[i]);
    }
    Ok(())
}
