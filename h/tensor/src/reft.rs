//! Plain component arrays: the reference model of tensors of order two, three and four

use mc::*;
use russell_lab::Matrix;
use russell_tensor::*;

pub type A2 = [[f64; 3]; 3];
pub type A3 = [[[f64; 3]; 3]; 3];
pub type A4 = [[[[f64; 3]; 3]; 3]; 3];

pub const REPS: [Rep; 3] = [Rep::General, Rep::Symmetric, Rep::Symmetric2D];

/// Index pairs in the documented order of the Kelvin components
pub const PAIRS: [(usize, usize); 9] = [(0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2), (1, 0), (2, 1), (2, 0)];

/// Standard components of the m-th Kelvin basis tensor
pub fn kelvin_basis(m: usize) -> A2 {
    let mut e = [[0.0; 3]; 3];
    let r = 1.0 / 2f64.sqrt();
    let (i, j) = PAIRS[m];
    if m < 3 {
        e[i][j] = 1.0;
    } else if m < 6 {
        e[i][j] = r;
        e[j][i] = r;
    } else {
        e[j][i] = r;
        e[i][j] = -r;
    }
    e
}

pub fn zero2() -> A2 {
    [[0.0; 3]; 3]
}

pub fn axpy2(a: &A2, alpha: f64, b: &A2) -> A2 {
    let mut c = *a;
    for i in 0..3 {
        for j in 0..3 {
            c[i][j] += alpha * b[i][j];
        }
    }
    c
}

pub fn scale2(alpha: f64, b: &A2) -> A2 {
    axpy2(&zero2(), alpha, b)
}

pub fn mul2(a: &A2, b: &A2) -> A2 {
    let mut c = zero2();
    for i in 0..3 {
        for j in 0..3 {
            for k in 0..3 {
                c[i][j] += a[i][k] * b[k][j];
            }
        }
    }
    c
}

pub fn transp2(a: &A2) -> A2 {
    let mut c = zero2();
    for i in 0..3 {
        for j in 0..3 {
            c[i][j] = a[j][i];
        }
    }
    c
}

pub fn ddot2(a: &A2, b: &A2) -> f64 {
    let mut s = 0.0;
    for i in 0..3 {
        for j in 0..3 {
            s += a[i][j] * b[i][j];
        }
    }
    s
}

pub fn det2(a: &A2) -> f64 {
    a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0])
        + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0])
}

pub fn tr2(a: &A2) -> f64 {
    a[0][0] + a[1][1] + a[2][2]
}

pub fn max2(a: &A2) -> f64 {
    a.iter().flatten().fold(0.0, |m, x| f64::max(m, x.abs()))
}

/// The basis of the space of tensors of a representation, in standard components
pub fn basis(rep: Rep) -> Vec<A2> {
    let mut out = Vec::new();
    for (m, &(i, j)) in PAIRS.iter().enumerate() {
        let mut e = zero2();
        e[i][j] = 1.0;
        match rep {
            Rep::General => out.push(e),
            _ if m < rep.dim() => {
                e[j][i] = 1.0;
                out.push(e);
            }
            _ => (),
        }
    }
    out
}

/// Tells whether the components fit a representation
pub fn fits(a: &A2, rep: Rep) -> bool {
    match rep {
        Rep::General => true,
        Rep::Symmetric => *a == transp2(a),
        Rep::Symmetric2D => *a == transp2(a) && a[0][2] == 0.0 && a[1][2] == 0.0,
    }
}

/// Three full integer tensors of each representation
pub fn dense(rep: Rep) -> Vec<A2> {
    let vals = [
        [[1.0, 2.0, -3.0], [4.0, -5.0, 6.0], [7.0, 8.0, 9.0]],
        [[-2.0, 3.0, 5.0], [-7.0, 11.0, -13.0], [17.0, -19.0, 4.0]],
        [[3.0, -1.0, 4.0], [1.0, 5.0, -9.0], [2.0, 6.0, -5.0]],
    ];
    vals.iter()
        .map(|v| {
            let mut a = *v;
            if rep != Rep::General {
                for (i, j) in [(0, 1), (1, 2), (0, 2)] {
                    a[j][i] = a[i][j];
                }
            }
            if rep == Rep::Symmetric2D {
                for (i, j) in [(1, 2), (0, 2)] {
                    a[i][j] = 0.0;
                    a[j][i] = 0.0;
                }
            }
            a
        })
        .collect()
}

pub fn t2(a: &A2, rep: Rep) -> Result<Tensor2, String> {
    Ok(Tensor2::from_std_matrix(a, rep)?)
}

/// A tensor full of a given garbage value
pub fn dirty2(rep: Rep, value: f64) -> Tensor2 {
    let mut t = Tensor2::new(rep);
    for m in 0..rep.dim() {
        t.set(m, value);
    }
    t
}

pub fn dirty4(rep: Rep, value: f64) -> Tensor4 {
    let mut t = Tensor4::new(rep);
    for m in 0..rep.dim() {
        for n in 0..rep.dim() {
            t.set(m, n, value);
        }
    }
    t
}

pub fn std2(t: &Tensor2) -> A2 {
    let mut a = zero2();
    for i in 0..3 {
        for j in 0..3 {
            a[i][j] = t.get_std(i, j);
        }
    }
    a
}

pub fn std4(t: &Tensor4) -> A4 {
    let mut a = [[[[0.0; 3]; 3]; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            for k in 0..3 {
                for l in 0..3 {
                    a[i][j][k][l] = t.get_std(i, j, k, l);
                }
            }
        }
    }
    a
}

pub fn std3(t: &Tensor3) -> A3 {
    let mut a = [[[0.0; 3]; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            for k in 0..3 {
                a[i][j][k] = t.get_std(i, j, k);
            }
        }
    }
    a
}

pub fn max4(a: &A4) -> f64 {
    let mut m = 0.0f64;
    for x in a.iter().flatten().flatten().flatten() {
        m = m.max(x.abs());
    }
    m
}

pub fn zero4() -> A4 {
    [[[[0.0; 3]; 3]; 3]; 3]
}

/// Tensor of order four from a function of its indices
pub fn make4(f: impl Fn(usize, usize, usize, usize) -> f64) -> A4 {
    let mut a = zero4();
    for i in 0..3 {
        for j in 0..3 {
            for k in 0..3 {
                for l in 0..3 {
                    a[i][j][k][l] = f(i, j, k, l);
                }
            }
        }
    }
    a
}

pub fn ddot42(d: &A4, a: &A2) -> A2 {
    let mut b = zero2();
    for i in 0..3 {
        for j in 0..3 {
            for k in 0..3 {
                for l in 0..3 {
                    b[i][j] += d[i][j][k][l] * a[k][l];
                }
            }
        }
    }
    b
}

pub fn ddot24(a: &A2, d: &A4) -> A2 {
    let mut b = zero2();
    for i in 0..3 {
        for j in 0..3 {
            for k in 0..3 {
                for l in 0..3 {
                    b[k][l] += a[i][j] * d[i][j][k][l];
                }
            }
        }
    }
    b
}

pub fn same2(got: &A2, want: &A2, tol: f64) -> Outcome {
    let s = tol * f64::max(1.0, max2(want));
    for i in 0..3 {
        for j in 0..3 {
            ensure!((got[i][j] - want[i][j]).abs() <= s, "component {i}{j} is {} instead of {}", got[i][j], want[i][j]);
        }
    }
    Ok(())
}

pub fn same4(got: &A4, want: &A4, tol: f64) -> Outcome {
    let s = tol * f64::max(1.0, max4(want));
    for i in 0..3 {
        for j in 0..3 {
            for k in 0..3 {
                for l in 0..3 {
                    let (g, w) = (got[i][j][k][l], want[i][j][k][l]);
                    ensure!((g - w).abs() <= s, "component {i}{j}{k}{l} is {g} instead of {w}");
                }
            }
        }
    }
    Ok(())
}

pub fn same3(got: &A3, want: &A3, tol: f64) -> Outcome {
    let m = want.iter().flatten().flatten().fold(0.0, |m: f64, x| m.max(x.abs()));
    let s = tol * f64::max(1.0, m);
    for i in 0..3 {
        for j in 0..3 {
            for k in 0..3 {
                let (g, w) = (got[i][j][k], want[i][j][k]);
                ensure!((g - w).abs() <= s, "component {i}{j}{k} is {g} instead of {w}");
            }
        }
    }
    Ok(())
}

pub fn same_mat(got: &Matrix, nrow: usize, ncol: usize, want: impl Fn(usize, usize) -> f64, tol: f64) -> Outcome {
    ensure!(got.dims() == (nrow, ncol), "matrix is {:?}", got.dims());
    for i in 0..nrow {
        for j in 0..ncol {
            let (g, w) = (got.get(i, j), want(i, j));
            ensure!((g - w).abs() <= tol * f64::max(1.0, w.abs()), "matrix entry {i},{j} is {g} instead of {w}");
        }
    }
    Ok(())
}
