//! Reference geometry: maps written down from their definition, with exact derivatives

use russell_lab::Vector;
use russell_pde::*;
use std::f64::consts::PI;
use std::sync::Arc;

/// n-th derivative of x^p
pub fn dpow(p: usize, n: usize, x: f64) -> f64 {
    if n > p {
        return 0.0;
    }
    let mut c = 1.0;
    for i in 0..n {
        c *= (p - i) as f64;
    }
    c * x.powi((p - n) as i32)
}

/// n-th derivative of the linear interpolation of x^p from the values at -1 and +1
pub fn dlin(p: usize, n: usize, x: f64) -> f64 {
    dpow(p % 2, n, x)
}

/// A component: sum of c r^a s^b
pub type Poly = Vec<(f64, usize, usize)>;

/// Derivative of order (m,n) of a polynomial
pub fn dpoly(p: &Poly, m: usize, n: usize, r: f64, s: f64) -> f64 {
    p.iter().map(|(c, a, b)| c * dpow(*a, m, r) * dpow(*b, n, s)).sum()
}

/// Derivative of order (m,n) of the map blending the boundary values of a polynomial
pub fn dblend(p: &Poly, m: usize, n: usize, r: f64, s: f64) -> f64 {
    p.iter()
        .map(|(c, a, b)| {
            let rest = (dpow(*a, m, r) - dlin(*a, m, r)) * (dpow(*b, n, s) - dlin(*b, n, s));
            c * (dpow(*a, m, r) * dpow(*b, n, s) - rest)
        })
        .sum()
}

type Deriv = Arc<dyn Fn(usize, usize, f64, f64) -> [f64; 2] + Send + Sync>;

/// Reference map and the map of the repository
pub struct Pair {
    pub name: String,
    /// derivative of the position of order (m,n) with respect to (r,s)
    pub d: Deriv,
    pub make: Box<dyn Fn() -> Transfinite2d + Send + Sync>,
}

pub fn polynomial(name: &str, comps: [Poly; 2], second: bool) -> Pair {
    let c = comps.clone();
    let make = move || {
        let side = |i: usize, order: usize| -> FnVec1Param1 {
            let c = c.clone();
            Box::new(move |x: &mut Vector, t: f64| {
                for k in 0..2 {
                    x[k] = match i {
                        0 => dpoly(&c[k], 0, order, -1.0, t),
                        1 => dpoly(&c[k], 0, order, 1.0, t),
                        2 => dpoly(&c[k], order, 0, t, -1.0),
                        _ => dpoly(&c[k], order, 0, t, 1.0),
                    };
                }
            })
        };
        let all = |order: usize| (0..4).map(|i| side(i, order)).collect::<Vec<_>>();
        Transfinite2d::new(all(0), all(1), if second { Some(all(2)) } else { None }).unwrap()
    };
    Pair {
        name: name.to_string(),
        d: Arc::new(move |m, n, r, s| [dblend(&comps[0], m, n, r, s), dblend(&comps[1], m, n, r, s)]),
        make: Box::new(make),
    }
}

pub fn quadrilateral(name: &str, p: [[f64; 2]; 4]) -> Pair {
    Pair {
        name: name.to_string(),
        d: Arc::new(move |m, n, r, s| {
            let l = |sign: f64, n: usize, x: f64| match n {
                0 => 0.5 * (1.0 + sign * x),
                1 => 0.5 * sign,
                _ => 0.0,
            };
            let mut out = [0.0; 2];
            for (q, (a, b)) in [(-1.0, -1.0), (1.0, -1.0), (1.0, 1.0), (-1.0, 1.0)].into_iter().enumerate() {
                for k in 0..2 {
                    out[k] += p[q][k] * l(a, m, r) * l(b, n, s);
                }
            }
            out
        }),
        make: Box::new(move || TransfiniteSamples::quadrilateral_2d(&p[0], &p[1], &p[2], &p[3])),
    }
}

/// n-th derivative of (cos, sin) of w (1 + s)
fn circle(w: f64, n: usize, s: f64) -> [f64; 2] {
    let a = w * (1.0 + s) + n as f64 * PI / 2.0;
    let c = w.powi(n as i32);
    [c * a.cos(), c * a.sin()]
}

fn lin(a: f64, b: f64, n: usize, r: f64) -> f64 {
    match n {
        0 => a + 0.5 * (1.0 + r) * (b - a),
        1 => 0.5 * (b - a),
        _ => 0.0,
    }
}

pub fn ring(a: f64, b: f64, half: bool) -> Pair {
    let w = if half { PI / 2.0 } else { PI / 4.0 };
    Pair {
        name: format!("{}ring-{a}-{b}", if half { "half" } else { "quarter" }),
        d: Arc::new(move |m, n, r, s| {
            let (q, c) = (lin(a, b, m, r), circle(w, n, s));
            [q * c[0], q * c[1]]
        }),
        make: Box::new(move || {
            if half {
                TransfiniteSamples::half_ring_2d(a, b)
            } else {
                TransfiniteSamples::quarter_ring_2d(a, b)
            }
        }),
    }
}

pub fn lozenge(a: f64, b: f64) -> Pair {
    Pair {
        name: format!("lozenge-{a}-{b}"),
        d: Arc::new(move |m, n, r, s| {
            let c = circle(PI / 4.0, n, s);
            let (l0, l1) = (lin(1.0, 0.0, m, r), lin(0.0, 1.0, m, r));
            [l0 * a * c[0] + l1 * lin(b, 0.0, n, s), l0 * a * c[1] + l1 * lin(0.0, b, n, s)]
        }),
        make: Box::new(move || TransfiniteSamples::quarter_perforated_lozenge_2d(a, b)),
    }
}

/// Quadrilaterals of different shapes, all with positive orientation
pub fn quadrilaterals() -> Vec<Pair> {
    let shapes = [
        ("square", [[0.0, 0.0], [1.0, 0.0], [1.0, 1.0], [0.0, 1.0]]),
        ("rectangle", [[-1.0, 2.0], [3.0, 2.0], [3.0, 2.5], [-1.0, 2.5]]),
        ("turned", [[0.0, 0.0], [3.0, 4.0], [1.0, 5.5], [-2.0, 1.5]]),
        ("sheared", [[0.0, 0.0], [2.0, 0.0], [2.5, 1.0], [0.5, 1.0]]),
        ("trapezium", [[0.0, 0.0], [3.0, 0.0], [2.0, 1.0], [1.0, 1.0]]),
        ("general", [[0.1, -0.2], [2.0, 0.3], [1.7, 1.9], [-0.4, 1.1]]),
    ];
    let mut all: Vec<Pair> = shapes.iter().map(|(n, p)| quadrilateral(n, *p)).collect();
    for (tag, scale) in [("tiny", 1e-5), ("huge", 1e6)] {
        let (n, p) = shapes[5];
        all.push(quadrilateral(&format!("{tag}-{n}"), p.map(|x| x.map(|v| v * scale))));
    }
    let (n, p) = shapes[1];
    all.push(quadrilateral(&format!("flat-{n}"), p.map(|x| [x[0], 1e-5 * x[1]])));
    all
}

pub fn curved() -> Vec<Pair> {
    vec![
        ring(1.0, 2.0, false),
        ring(0.3, 5.0, false),
        ring(1e-4, 3e-4, false),
        ring(3.0, 6.0, true),
        lozenge(1.0, 3.0),
        lozenge(0.5, 0.9),
        polynomial("bulged", [vec![(1.0, 1, 0), (0.2, 0, 2), (0.1, 1, 1)], vec![(0.8, 0, 1), (-0.15, 2, 0), (0.05, 3, 1)]], true),
        polynomial("wavy", [vec![(2.0, 1, 0), (0.1, 0, 3), (-0.1, 0, 1)], vec![(1.0, 0, 1), (0.2, 3, 0), (0.5, 0, 0)]], true),
    ]
}
