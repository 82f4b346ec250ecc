//! Problems with known solutions

use russell_lab::Vector;
use russell_ode::System;
use russell_sparse::{CooMatrix, Sym};

pub type F = fn(f64, &[f64]) -> Vec<f64>;
pub type J = fn(f64, &[f64]) -> Vec<Vec<f64>>;
pub type S = fn(f64) -> Vec<f64>;
pub type M = fn() -> Vec<Vec<f64>>;

#[derive(Clone, Copy)]
pub struct Problem {
    pub name: &'static str,
    pub f: F,
    pub jac: J,
    pub sol: S,
    pub mass: Option<M>,
    pub x0: f64,
    pub x1: f64,
    pub stiff: bool,
}

impl Problem {
    pub fn start(&self) -> Vec<f64> {
        (self.sol)(self.x0)
    }

    pub fn dim(&self) -> usize {
        self.start().len()
    }

    pub fn system<'a, A: 'a>(&self, analytical: bool) -> System<'a, A> {
        let p = *self;
        let n = p.dim();
        let mut system = System::new(n, move |f: &mut Vector, x: f64, y: &Vector, _: &mut A| {
            for (i, v) in (p.f)(x, y.as_data()).iter().enumerate() {
                f[i] = *v;
            }
            Ok(())
        });
        if analytical {
            system
                .set_jacobian(Some(n * n), Sym::No, move |jj: &mut CooMatrix, m: f64, x: f64, y: &Vector, _: &mut A| {
                    jj.reset();
                    for (i, row) in (p.jac)(x, y.as_data()).iter().enumerate() {
                        for (j, v) in row.iter().enumerate() {
                            jj.put(i, j, m * v)?;
                        }
                    }
                    Ok(())
                })
                .unwrap();
        }
        self.put_mass(&mut system);
        system
    }

    /// Several copies of the problem side by side in one system; component m of copy k has index m * copies + k
    pub fn copies<'a, A: 'a>(&self, copies: usize, analytical: bool) -> System<'a, A> {
        let p = *self;
        let n = p.dim();
        let part = move |y: &Vector, k: usize| -> Vec<f64> { (0..n).map(|m| y[m * copies + k]).collect() };
        let mut system = System::new(n * copies, move |f: &mut Vector, x: f64, y: &Vector, _: &mut A| {
            for k in 0..copies {
                for (m, v) in (p.f)(x, &part(y, k)).iter().enumerate() {
                    f[m * copies + k] = *v;
                }
            }
            Ok(())
        });
        if analytical {
            system
                .set_jacobian(Some(n * n * copies), Sym::No, move |jj: &mut CooMatrix, alpha: f64, x: f64, y: &Vector, _: &mut A| {
                    jj.reset();
                    for k in 0..copies {
                        for (i, row) in (p.jac)(x, &part(y, k)).iter().enumerate() {
                            for (j, v) in row.iter().enumerate() {
                                jj.put(i * copies + k, j * copies + k, alpha * v)?;
                            }
                        }
                    }
                    Ok(())
                })
                .unwrap();
        }
        if let Some(mass) = self.mass {
            system
                .set_mass(Some(n * n * copies), Sym::No, move |mm: &mut CooMatrix| {
                    for (i, row) in mass().iter().enumerate() {
                        for (j, v) in row.iter().enumerate() {
                            for k in 0..copies {
                                if *v != 0.0 {
                                    mm.put(i * copies + k, j * copies + k, *v).unwrap();
                                }
                            }
                        }
                    }
                })
                .unwrap();
        }
        system
    }

    pub fn put_mass<'a, A: 'a>(&self, system: &mut System<'a, A>) {
        if let Some(mass) = self.mass {
            system
                .set_mass(None, Sym::No, move |mm: &mut CooMatrix| {
                    for (i, row) in mass().iter().enumerate() {
                        for (j, v) in row.iter().enumerate() {
                            if *v != 0.0 {
                                mm.put(i, j, *v).unwrap();
                            }
                        }
                    }
                })
                .unwrap();
        }
    }
}

/// Non-stiff problems first, then stiff ones, then those with a mass matrix (the last two are differential-algebraic)
pub fn problems() -> Vec<Problem> {
    let plain = Problem {
        name: "",
        f: |_, _| vec![],
        jac: |_, _| vec![],
        sol: |_| vec![],
        mass: None,
        x0: 0.0,
        x1: 1.0,
        stiff: false,
    };
    vec![
        Problem {
            name: "decay",
            f: |_, y| vec![-y[0]],
            jac: |_, _| vec![vec![-1.0]],
            sol: |x| vec![(-x).exp()],
            x1: 3.0,
            ..plain
        },
        Problem {
            name: "growth",
            f: |_, y| vec![y[0]],
            jac: |_, _| vec![vec![1.0]],
            sol: |x| vec![x.exp()],
            x0: -1.0,
            x1: 2.0,
            ..plain
        },
        Problem {
            name: "logistic",
            f: |_, y| vec![y[0] * (1.0 - y[0])],
            jac: |_, y| vec![vec![1.0 - 2.0 * y[0]]],
            sol: |x| vec![1.0 / (1.0 + 3.0 * (-x).exp())],
            x1: 5.0,
            ..plain
        },
        Problem {
            name: "rotation",
            f: |_, y| vec![y[1], -y[0]],
            jac: |_, _| vec![vec![0.0, 1.0], vec![-1.0, 0.0]],
            sol: |x| vec![x.sin(), x.cos()],
            x0: 0.5,
            x1: 7.0,
            ..plain
        },
        Problem {
            name: "forced",
            f: |x, y| vec![-2.0 * x * y[0] + x.cos() + 2.0 * x * x.sin()],
            jac: |x, _| vec![vec![-2.0 * x]],
            sol: |x| vec![x.sin() + (-x * x).exp()],
            x0: -1.0,
            x1: 2.0,
            ..plain
        },
        Problem {
            name: "riccati",
            f: |_, y| vec![-y[0] * y[0]],
            jac: |_, y| vec![vec![-2.0 * y[0]]],
            sol: |x| vec![1.0 / (1.0 + x)],
            x1: 9.0,
            ..plain
        },
        Problem {
            name: "pair",
            f: |x, y| vec![y[1] * x.cos(), y[0] * y[1] - x.sin() * y[1]],
            jac: |x, y| vec![vec![0.0, x.cos()], vec![y[1], y[0] - x.sin()]],
            sol: |x| vec![x.sin(), 1.0],
            x1: 3.0,
            ..plain
        },
        Problem {
            name: "constant",
            f: |_, y| vec![0.0 * y[0], 0.0 * y[0], 1.0],
            jac: |_, _| vec![vec![0.0; 3]; 3],
            sol: |x| vec![4.0, 0.0, x],
            x0: 10.0,
            x1: 12.0,
            ..plain
        },
        Problem {
            name: "pulse",
            f: |x, _| vec![-(x - 2.0) * (-(x - 2.0) * (x - 2.0) / 2.0).exp()],
            jac: |_, _| vec![vec![0.0]],
            sol: |x| vec![(-(x - 2.0) * (x - 2.0) / 2.0).exp()],
            x1: 4.0,
            ..plain
        },
        Problem {
            name: "chain",
            f: |_, y| vec![-y[0], y[0] - y[1], y[1] - y[2], y[2] - y[3], y[3]],
            jac: |_, _| {
                let mut m = vec![vec![0.0; 5]; 5];
                for i in 0..4 {
                    m[i][i] = -1.0;
                    m[i + 1][i] = 1.0;
                }
                m
            },
            sol: |x| {
                let e = (-x).exp();
                let v = vec![e, x * e, x * x * e / 2.0, x * x * x * e / 6.0];
                let s: f64 = v.iter().sum();
                let mut v = v;
                v.push(1.0 - s);
                v
            },
            x1: 6.0,
            ..plain
        },
        Problem {
            name: "many",
            f: |_, y| (0..24).map(|i| if i == 0 { -y[0] / 8.0 } else { y[i - 1] / 16.0 - (i + 2) as f64 / 16.0 * y[i] }).collect(),
            jac: |_, _| {
                let mut m = vec![vec![0.0; 24]; 24];
                for i in 0..24 {
                    m[i][i] = -((i + 2) as f64) / 16.0;
                    if i > 0 {
                        m[i][i - 1] = 1.0 / 16.0;
                    }
                }
                m
            },
            // y[i] = exp(-x/8) (1 - exp(-x/16))^i / i!
            sol: |x| {
                let mut v = vec![(-x / 8.0).exp()];
                for i in 1..24 {
                    v.push(v[i - 1] * (1.0 - (-x / 16.0).exp()) / i as f64);
                }
                v
            },
            x0: 2.0,
            x1: 6.0,
            ..plain
        },
        Problem {
            name: "tracking",
            f: |x, y| vec![-1000.0 * (y[0] - x.cos()) - x.sin()],
            jac: |_, _| vec![vec![-1000.0]],
            sol: |x| vec![x.cos()],
            x1: 2.0,
            stiff: true,
            ..plain
        },
        Problem {
            name: "two scales",
            f: |_, y| vec![998.0 * y[0] + 1998.0 * y[1], -999.0 * y[0] - 1999.0 * y[1]],
            jac: |_, _| vec![vec![998.0, 1998.0], vec![-999.0, -1999.0]],
            sol: |x| {
                let (s, q) = ((-x).exp(), (-1000.0 * x).exp());
                vec![2.0 * s - q, -s + q]
            },
            x1: 3.0,
            stiff: true,
            ..plain
        },
        Problem {
            name: "kaps",
            f: |_, y| vec![-1002.0 * y[0] + 1000.0 * y[1] * y[1], y[0] - y[1] * (1.0 + y[1])],
            jac: |_, y| vec![vec![-1002.0, 2000.0 * y[1]], vec![1.0, -1.0 - 2.0 * y[1]]],
            sol: |x| vec![(-2.0 * x).exp(), (-x).exp()],
            x1: 2.0,
            stiff: true,
            ..plain
        },
        Problem {
            name: "mass",
            f: |_, y| vec![-2.0 * y[0] + y[1], -y[0] - 3.0 * y[1]],
            jac: |_, _| vec![vec![-2.0, 1.0], vec![-1.0, -3.0]],
            // (2 1; 1 3) y' = (-2 1; -1 -3) y: y' = -y + (0 1; 0 -... ) solved below
            sol: |x| {
                // inverse(M) A = (1/5) (3 -1; -1 2) (-2 1; -1 -3) = (1/5) (-5 6; 0 -7)
                let (a, b) = (-1.0, -1.4);
                let (ea, eb) = ((a * x).exp(), (b * x).exp());
                // y1 = eb; y0' = -y0 + 1.2 y1; y0 = c ea - 3 eb, y0(0) = 1
                vec![4.0 * ea - 3.0 * eb, eb]
            },
            mass: Some(|| vec![vec![2.0, 1.0], vec![1.0, 3.0]]),
            x1: 2.0,
            ..plain
        },
        Problem {
            name: "algebraic",
            f: |_, y| vec![-y[0], y[1] - y[0] * y[0]],
            jac: |_, y| vec![vec![-1.0, 0.0], vec![-2.0 * y[0], 1.0]],
            sol: |x| vec![(-x).exp(), (-2.0 * x).exp()],
            mass: Some(|| vec![vec![1.0, 0.0], vec![0.0, 0.0]]),
            x1: 2.0,
            ..plain
        },
        Problem {
            name: "circuit",
            // y0' - y1' = -(y0 - y1) + y2; 0 = y0 + y1 - 2 cos x; y2' = -y2, mixed singular mass
            f: |x, y| vec![-(y[0] - y[1]) + y[2], y[0] + y[1] - 2.0 * x.cos(), -y[2]],
            jac: |_, _| vec![vec![-1.0, 1.0, 1.0], vec![1.0, 1.0, 0.0], vec![0.0, 0.0, -1.0]],
            sol: |x| {
                // d = y0 - y1: d' = -d + exp(-x), d = x exp(-x)
                let d = x * (-x).exp();
                vec![x.cos() + d / 2.0, x.cos() - d / 2.0, (-x).exp()]
            },
            mass: Some(|| vec![vec![1.0, -1.0, 0.0], vec![0.0, 0.0, 0.0], vec![0.0, 0.0, 1.0]]),
            x1: 3.0,
            ..plain
        },
    ]
}
