//! S01: COO, CSC and CSR against a list of triples

use mc::*;
use num_complex::Complex64;
use russell_lab::{NumMatrix, NumVector};
use russell_sparse::prelude::*;
use russell_sparse::{NumCooMatrix, NumCscMatrix, NumCsrMatrix};
use serde::{de::DeserializeOwned, Serialize};
use std::ops::{AddAssign, MulAssign};

/// Components used in the exploration (integers, thus exact)
pub trait Item: AddAssign + MulAssign + num_traits::Num + num_traits::NumCast + Copy + DeserializeOwned + Serialize + std::fmt::Debug + Send + Sync + 'static {
    fn make(k: i64) -> Self;
    fn hash(&self) -> (u64, u64);
}

impl Item for f64 {
    fn make(k: i64) -> f64 {
        k as f64
    }
    fn hash(&self) -> (u64, u64) {
        ((*self + 0.0).to_bits(), 0)
    }
}

impl Item for Complex64 {
    fn make(k: i64) -> Complex64 {
        // distinct real and imaginary parts; additive in k
        Complex64::new(k as f64, -3.0 * k as f64)
    }
    fn hash(&self) -> (u64, u64) {
        ((self.re + 0.0).to_bits(), (self.im + 0.0).to_bits())
    }
}

pub const SYMS: [Sym; 4] = [Sym::No, Sym::YesFull, Sym::YesLower, Sym::YesUpper];

pub fn tri(s: Sym) -> bool {
    s == Sym::YesLower || s == Sym::YesUpper
}

pub fn allowed(s: Sym, i: usize, j: usize) -> bool {
    match s {
        Sym::YesLower => j <= i,
        Sym::YesUpper => j >= i,
        _ => true,
    }
}

/// The model: a list of triples
#[derive(Clone)]
pub struct Model<T: Item> {
    pub m: usize,
    pub n: usize,
    pub sym: Sym,
    pub cap: usize,
    pub t: Vec<(usize, usize, T)>,
}

impl<T: Item> Model<T> {
    pub fn new(m: usize, n: usize, sym: Sym, cap: usize) -> Self {
        Model { m, n, sym, cap, t: Vec::new() }
    }
    /// stored entries summed (without mirroring); None = not stored
    pub fn stored(&self) -> Vec<Vec<Option<T>>> {
        let mut a = vec![vec![None; self.n]; self.m];
        for (i, j, v) in &self.t {
            a[*i][*j] = Some(a[*i][*j].unwrap_or(T::zero()) + *v);
        }
        a
    }
    pub fn dense(&self) -> Vec<Vec<T>> {
        let mut a = vec![vec![T::zero(); self.n]; self.m];
        for (i, j, v) in &self.t {
            a[*i][*j] += *v;
            if tri(self.sym) && i != j {
                a[*j][*i] += *v;
            }
        }
        a
    }
    pub fn coo(&self) -> NumCooMatrix<T> {
        let mut c = NumCooMatrix::new(self.m, self.n, self.cap, self.sym).unwrap();
        for (i, j, v) in &self.t {
            c.put(*i, *j, *v).unwrap();
        }
        c
    }
}

fn same_dense<T: Item>(what: &str, a: &NumMatrix<T>, d: &[Vec<T>]) -> Outcome {
    let (m, n) = a.dims();
    ensure!(m == d.len() && n == d[0].len(), "{}: dense dimensions {}x{}", what, m, n);
    for i in 0..m {
        for j in 0..n {
            ensure!(a.get(i, j) == d[i][j], "{}: a[{}][{}] = {:?} instead of {:?}", what, i, j, a.get(i, j), d[i][j]);
        }
    }
    Ok(())
}

fn vector<T: Item>(n: usize, seed: i64) -> NumVector<T> {
    let mut v = NumVector::new(n);
    for i in 0..n {
        v[i] = T::make(seed + 2 * i as i64 * i as i64 - 3 * i as i64);
    }
    v
}

fn prod<T: Item>(d: &[Vec<T>], alpha: T, u: &NumVector<T>, transpose: bool) -> Vec<T> {
    let (m, n) = (d.len(), d[0].len());
    let len = if transpose { n } else { m };
    let mut v = vec![T::zero(); len];
    for i in 0..m {
        for j in 0..n {
            if transpose {
                v[j] += alpha * d[i][j] * u[i];
            } else {
                v[i] += alpha * d[i][j] * u[j];
            }
        }
    }
    v
}

/// Checks everything observable of a COO matrix
pub fn check_coo<T: Item>(c: &NumCooMatrix<T>, k: &Model<T>) -> Outcome {
    let (m, n, nnz, sym) = c.get_info();
    ensure!(m == k.m && n == k.n && nnz == k.t.len() && sym == k.sym && c.get_nnz() == nnz, "COO info {:?}", (m, n, nnz, sym));
    let (ri, ci, va) = (c.get_row_indices(), c.get_col_indices(), c.get_values());
    ensure!(ri.len() == nnz && ci.len() == nnz && va.len() == nnz, "COO array lengths");
    for (p, t) in k.t.iter().enumerate() {
        ensure!((ri[p] as usize, ci[p] as usize) == (t.0, t.1) && va[p] == t.2, "COO triple {}", p);
    }
    let d = k.dense();
    same_dense("COO", &c.as_dense(), &d)?;
    let mut a = NumMatrix::filled(m, n, T::make(77));
    c.to_dense(&mut a)?;
    same_dense("COO to_dense", &a, &d)?;
    ensure!(c.to_dense(&mut NumMatrix::new(m + 1, n)).is_err() && c.to_dense(&mut NumMatrix::new(m, n + 1)).is_err(), "to_dense accepts wrong dimensions");
    let actual = if tri(sym) { k.t.iter().map(|t| if t.0 == t.1 { 1 } else { 2 }).sum() } else { nnz };
    ensure!(c.get_actual_nnz() == actual, "get_actual_nnz = {} instead of {}", c.get_actual_nnz(), actual);
    for (alpha, extra) in [(T::make(1), 0), (T::make(-2), 1)] {
        let (u, w) = (vector::<T>(n + extra, 3), vector::<T>(m + extra, -1));
        let mut v = vector::<T>(m + extra, 50);
        c.mat_vec_mul(&mut v, alpha, &u)?;
        let r = prod(&d, alpha, &u, false);
        for i in 0..m {
            ensure!(v[i] == r[i], "COO product {}: {:?} instead of {:?}", i, v[i], r[i]);
        }
        let mut v = vector::<T>(m + extra, 50);
        c.mat_vec_mul_update(&mut v, alpha, &u)?;
        let v0 = vector::<T>(m + extra, 50);
        for i in 0..m {
            ensure!(v[i] == v0[i] + r[i], "COO product with update {}", i);
        }
        let mut v = vector::<T>(n + extra, 50);
        c.mat_t_vec_mul(&mut v, alpha, &w)?;
        let r = prod(&d, alpha, &w, true);
        for j in 0..n {
            ensure!(v[j] == r[j], "COO transposed product {}: {:?} instead of {:?}", j, v[j], r[j]);
        }
    }
    ensure!(c.mat_vec_mul(&mut NumVector::new(m), T::one(), &NumVector::new(n - 1)).is_err() && c.mat_vec_mul(&mut NumVector::new(m - 1), T::one(), &NumVector::new(n)).is_err(), "product with short vectors");
    ensure!(c.mat_vec_mul_update(&mut NumVector::new(m), T::one(), &NumVector::new(n - 1)).is_err() && c.mat_vec_mul_update(&mut NumVector::new(m - 1), T::one(), &NumVector::new(n)).is_err(), "update with short vectors");
    ensure!(c.mat_t_vec_mul(&mut NumVector::new(n), T::one(), &NumVector::new(m - 1)).is_err() && c.mat_t_vec_mul(&mut NumVector::new(n - 1), T::one(), &NumVector::new(m)).is_err(), "transposed product with short vectors");
    Ok(())
}

pub enum Comp<'a, T: Item> {
    Csc(&'a NumCscMatrix<T>),
    Csr(&'a NumCsrMatrix<T>),
}

/// Checks everything observable of a compressed matrix
pub fn check_comp<T: Item>(what: &str, c: Comp<T>, k: &Model<T>) -> Outcome {
    let (info, ptr, idx, val) = match &c {
        Comp::Csc(c) => (c.get_info(), c.get_col_pointers(), c.get_row_indices(), c.get_values()),
        Comp::Csr(c) => (c.get_info(), c.get_row_pointers(), c.get_col_indices(), c.get_values()),
    };
    let stored = k.stored();
    let count = stored.iter().flatten().filter(|v| v.is_some()).count();
    ensure!(info == (k.m, k.n, count, k.sym), "{}: info {:?} instead of {:?}", what, info, (k.m, k.n, count, k.sym));
    let is_csc = matches!(c, Comp::Csc(_));
    let (major, minor) = if is_csc { (k.n, k.m) } else { (k.m, k.n) };
    ensure!(ptr.len() == major + 1 && ptr[0] == 0 && ptr[major] as usize == count && idx.len() == count && val.len() == count, "{}: array lengths", what);
    let mut p = 0;
    for a in 0..major {
        ensure!(ptr[a] as usize == p, "{}: pointer {}", what, a);
        for b in 0..minor {
            let s = if is_csc { stored[b][a] } else { stored[a][b] };
            if let Some(v) = s {
                ensure!(p < count && idx[p] as usize == b, "{}: indices not sorted, unique and complete: {:?} {:?}", what, ptr, idx);
                ensure!(val[p] == v, "{}: value {} is {:?} instead of {:?}", what, p, val[p], v);
                p += 1;
            }
        }
    }
    let d = k.dense();
    let u = vector::<T>(k.n, 3);
    for alpha in [T::make(1), T::make(-2)] {
        let r = prod(&d, alpha, &u, false);
        let mut v = vector::<T>(k.m, 50);
        let mut a = NumMatrix::filled(k.m, k.n, T::make(77));
        let (z, o) = (&mut NumVector::new(k.m + 1), NumVector::new(k.n + 1));
        match &c {
            Comp::Csc(c) => {
                c.mat_vec_mul(&mut v, alpha, &u)?;
                c.to_dense(&mut a)?;
                same_dense(what, &c.as_dense(), &d)?;
                ensure!(c.mat_vec_mul(z, alpha, &u).is_err() && c.mat_vec_mul(&mut v.clone(), alpha, &o).is_err(), "{}: product with wrong vectors", what);
                ensure!(c.to_dense(&mut NumMatrix::new(k.m + 1, k.n)).is_err() && c.to_dense(&mut NumMatrix::new(k.m, k.n + 1)).is_err(), "{}: to_dense accepts wrong dimensions", what);
            }
            Comp::Csr(c) => {
                c.mat_vec_mul(&mut v, alpha, &u)?;
                c.to_dense(&mut a)?;
                same_dense(what, &c.as_dense(), &d)?;
                ensure!(c.mat_vec_mul(z, alpha, &u).is_err() && c.mat_vec_mul(&mut v.clone(), alpha, &o).is_err(), "{}: product with wrong vectors", what);
                ensure!(c.to_dense(&mut NumMatrix::new(k.m + 1, k.n)).is_err() && c.to_dense(&mut NumMatrix::new(k.m, k.n + 1)).is_err(), "{}: to_dense accepts wrong dimensions", what);
            }
        }
        same_dense(what, &a, &d)?;
        for i in 0..k.m {
            ensure!(v[i] == r[i], "{}: product {}: {:?} instead of {:?}", what, i, v[i], r[i]);
        }
    }
    Ok(())
}

/// All conversions from a COO matrix
fn check_conversions<T: Item>(t: &mut Trace, k: &Model<T>) -> Outcome {
    let coo = k.coo();
    check_coo(&coo, k)?;
    t.ops(1);
    if k.t.is_empty() {
        ensure!(NumCscMatrix::from_coo(&coo).is_err() && NumCsrMatrix::from_coo(&coo).is_err(), "empty COO accepted");
        return Ok(());
    }
    let csc = NumCscMatrix::from_coo(&coo)?;
    let csr = NumCsrMatrix::from_coo(&coo)?;
    check_comp("CSC from COO", Comp::Csc(&csc), k)?;
    check_comp("CSR from COO", Comp::Csr(&csr), k)?;
    let csc2 = NumCscMatrix::from_csr(&csr)?;
    let csr2 = NumCsrMatrix::from_csc(&csc)?;
    check_comp("CSC from CSR", Comp::Csc(&csc2), k)?;
    check_comp("CSR from CSC", Comp::Csr(&csr2), k)?;
    check_comp("CSR from CSC from CSR", Comp::Csr(&NumCsrMatrix::from_csc(&csc2)?), k)?;
    check_comp("CSC from CSR from CSC", Comp::Csc(&NumCscMatrix::from_csr(&csr2)?), k)?;
    t.ops(6);
    let h: Vec<(usize, usize, (u64, u64))> = k.t.iter().map(|(i, j, v)| (*i, *j, v.hash())).collect();
    t.state(&(k.m, k.n, k.sym as usize, h));
    Ok(())
}

fn positions(m: usize, n: usize, sym: Sym) -> Vec<(usize, usize)> {
    let mut v = Vec::new();
    for i in 0..m {
        for j in 0..n {
            if allowed(sym, i, j) {
                v.push((i, j));
            }
        }
    }
    v
}

fn patterns<T: Item>(run: &mut Run, name: &str) {
    let mut work = Vec::new();
    let limit = run.pick(20_000, 400_000);
    for sym in SYMS {
        for m in 1..=4 {
            for n in 1..=4 {
                if sym != Sym::No && m != n {
                    continue;
                }
                let np = positions(m, n, sym).len();
                for len in 0..=6 {
                    // all lists up to the limit
                    if pow(np, len) <= limit {
                        for first in 0..(if len > 0 { np } else { 1 }) {
                            work.push((sym, m, n, len, first));
                        }
                    }
                }
            }
        }
    }
    run.section(name, work.len(), |ctx, w| {
        let (sym, m, n, len, first) = work[w];
        let pos = positions(m, n, sym);
        let rest = if len > 0 { len - 1 } else { 0 };
        for idx in 0..pow(pos.len(), rest) {
            let mut seq = digits(idx, pos.len(), rest);
            if len > 0 {
                seq.insert(0, first);
            }
            // the values make the second and third duplicates cancel
            for vals in [[3, 5, -5, 7, 0, -3], [1, -1, 1, -1, 2, 4]] {
                ctx.case(format!("{:?} {}x{} positions={:?} values={:?}", sym, m, n, seq, &vals[..len]), |t| {
                    let mut k = Model::<T>::new(m, n, sym, len.max(1));
                    for (q, s) in seq.iter().enumerate() {
                        k.t.push((pos[*s].0, pos[*s].1, T::make(vals[q])));
                    }
                    check_conversions(t, &k)
                });
            }
        }
    });
}

/// Larger shapes with every stride through the positions
fn strides<T: Item>(run: &mut Run, name: &str) {
    let max = run.pick(7, 11);
    let mut work = Vec::new();
    for sym in SYMS {
        for m in 1..=max {
            for n in 1..=max {
                if sym == Sym::No || m == n {
                    work.push((sym, m, n));
                }
            }
        }
        for (m, n) in [(16, 16), (17, 15), (2, 40), (40, 2), (31, 33), (32, 32), (33, 33), (50, 50), (64, 64), (65, 3), (3, 65), (100, 1), (1, 100), (70, 71), (101, 101)] {
            if sym == Sym::No || m == n {
                work.push((sym, m, n));
            }
        }
    }
    run.section(name, work.len(), |ctx, w| {
        let (sym, m, n) = work[w];
        let pos = positions(m, n, sym);
        let np = pos.len();
        let large = m > max || n > max;
        let strides: Vec<usize> = if large { vec![1, 2, 3, n, n + 1, np / 2, np - 1] } else { (1..=np).collect() };
        for a in strides {
            for b in 0..(if large { 2 } else { 3 }) {
                for len in if large { [m.max(n), 3 * n + m, np] } else { [np / 2 + 1, np, 2 * np + 1] } {
                    ctx.case(format!("{:?} {}x{} stride={} {} len={}", sym, m, n, a, b, len), |t| {
                        let model = |shift: usize| {
                            let mut k = Model::<T>::new(m, n, sym, len);
                            for p in 0..len {
                                let q = (a * p + b * p * p / 2 + shift) % np;
                                k.t.push((pos[q].0, pos[q].1, T::make((p * 7 + shift) as i64 % 11 - 5)));
                            }
                            k
                        };
                        let k = model(0);
                        check_conversions(t, &k)?;
                        let mut csc = NumCscMatrix::from_coo(&k.coo())?;
                        let mut csr = NumCsrMatrix::from_coo(&k.coo())?;
                        for shift in [1, np / 2] {
                            let k = model(shift);
                            csc.update_from_coo(&k.coo())?;
                            csr.update_from_coo(&k.coo())?;
                            check_comp("updated CSC", Comp::Csc(&csc), &k)?;
                            check_comp("updated CSR", Comp::Csr(&csr), &k)?;
                            t.ops(2);
                        }
                        Ok(())
                    });
                }
            }
        }
    });
}

/// Updates of one compressed object with a sequence of patterns
fn updates<T: Item>(run: &mut Run, name: &str) {
    let mut work = Vec::new();
    let shapes: Vec<(usize, usize, usize, usize)> = if run.thorough() {
        vec![(1, 1, 2, 3), (2, 2, 3, 3), (2, 3, 3, 2), (3, 2, 3, 2), (3, 1, 3, 3), (1, 3, 3, 3), (3, 3, 2, 3), (3, 3, 3, 2), (2, 2, 4, 2)]
    } else {
        vec![(1, 1, 2, 3), (2, 2, 2, 3), (2, 2, 3, 2), (2, 3, 3, 2), (3, 2, 3, 2), (3, 1, 2, 3), (1, 3, 2, 3), (3, 3, 2, 2), (1, 4, 3, 2), (4, 1, 3, 2)]
    };
    for sym in SYMS {
        for (m, n, len, depth) in &shapes {
            if sym == Sym::No || m == n {
                let np = positions(*m, *n, sym).len();
                for first in 0..pow(np, *len) {
                    work.push((sym, *m, *n, *len, *depth, first));
                }
            }
        }
    }
    run.section(name, work.len(), |ctx, w| {
        let (sym, m, n, len, depth, first) = work[w];
        let pos = positions(m, n, sym);
        let lists = pow(pos.len(), len);
        for idx in 0..pow(lists, depth - 1) {
            let mut seq = digits(idx, lists, depth - 1);
            seq.insert(0, first);
            ctx.case(format!("{:?} {}x{} len={} lists={:?}", sym, m, n, len, seq), |t| {
                let model = |q: usize, which: usize| {
                    let mut k = Model::<T>::new(m, n, sym, len);
                    for (p, s) in digits(which, pos.len(), len).iter().enumerate() {
                        k.t.push((pos[*s].0, pos[*s].1, T::make([3, 5, -5, 7][(p + q) % 4])));
                    }
                    k
                };
                let k0 = model(0, seq[0]);
                let mut csc = NumCscMatrix::from_coo(&k0.coo())?;
                let mut csr = NumCsrMatrix::from_coo(&k0.coo())?;
                t.ops(2);
                for q in 1..depth {
                    let k = model(q, seq[q]);
                    let coo = k.coo();
                    csc.update_from_coo(&coo)?;
                    csr.update_from_coo(&coo)?;
                    t.ops(2);
                    check_comp("updated CSC", Comp::Csc(&csc), &k)?;
                    check_comp("updated CSR", Comp::Csr(&csr), &k)?;
                    // incompatible updates are refused and change nothing
                    let mut longer = Model::<T>::new(m, n, sym, len + 1);
                    longer.t = k.t.clone();
                    longer.t.push((0, 0, T::make(9)));
                    let mut other = Model::<T>::new(m + 1, n + 1, sym, len);
                    other.t = k.t.clone();
                    let mut flag = Model::<T>::new(m, n, if sym == Sym::No { Sym::YesFull } else { Sym::No }, len);
                    flag.t = k.t.clone();
                    for (bad, ok) in [(&longer, true), (&other, true), (&flag, m == n)] {
                        if ok {
                            let coo = bad.coo();
                            ensure!(csc.update_from_coo(&coo).is_err() && csr.update_from_coo(&coo).is_err(), "incompatible update accepted");
                        }
                    }
                    check_comp("CSC after a refused update", Comp::Csc(&csc), &k)?;
                    check_comp("CSR after a refused update", Comp::Csr(&csr), &k)?;
                    // the values may be changed in place
                    for v in csc.get_values_mut() {
                        *v *= T::make(2);
                    }
                    for v in csr.get_values_mut() {
                        *v *= T::make(2);
                    }
                    let mut k2 = k.clone();
                    for e in k2.t.iter_mut() {
                        e.2 = e.2 * T::make(2);
                    }
                    check_comp("scaled CSC", Comp::Csc(&csc), &k2)?;
                    check_comp("scaled CSR", Comp::Csr(&csr), &k2)?;
                    // an object obtained from the other form can be updated if nothing was summed
                    let mut c2 = NumCscMatrix::from_csr(&csr)?;
                    let mut r2 = NumCsrMatrix::from_csc(&csc)?;
                    let full = k.stored().iter().flatten().filter(|v| v.is_some()).count() == len;
                    let (a, b) = (c2.update_from_coo(&coo), r2.update_from_coo(&coo));
                    ensure!(a.is_ok() == full && b.is_ok() == full, "update of converted matrices: {:?} {:?}", a, b);
                    let expect = if full { &k } else { &k2 };
                    check_comp("updated converted CSC", Comp::Csc(&c2), expect)?;
                    check_comp("updated converted CSR", Comp::Csr(&r2), expect)?;
                    t.ops(4);
                }
                t.state(&(w, idx));
                Ok(())
            });
        }
    });
}

/// Histories of assembly operations
fn histories<T: Item>(run: &mut Run, name: &str, extra: impl Fn(&mut NumCooMatrix<T>, &mut Model<T>, usize) -> Option<Outcome> + Sync, n_extra: usize) {
    let depth = run.pick(4, 5);
    let mut work = Vec::new();
    for sym in SYMS {
        for (m, n) in [(2, 2), (2, 3), (3, 3), (1, 2)] {
            if sym == Sym::No || m == n {
                for cap in [1, 3, 4] {
                    work.push((sym, m, n, cap));
                }
            }
        }
    }
    run.section(name, work.len(), |ctx, w| {
        let (sym, m, n, cap) = work[w];
        // other matrices: same size, smaller, with other symmetry, larger
        let mut others: Vec<Model<T>> = Vec::new();
        for (om, on, os) in [(m, n, sym), (1, 1, sym), (m, n, if sym == Sym::No { Sym::YesFull } else { Sym::No }), (m + 1, n + 1, sym)] {
            if os != Sym::No && om != on {
                continue;
            }
            let mut o = Model::new(om, on, os, 2);
            o.t.push((0, 0, T::make(4)));
            if om > 1 || on > 1 {
                let p = positions(om, on, os);
                let last = p[p.len() - 2];
                o.t.push((last.0, last.1, T::make(-3)));
            }
            others.push(o);
        }
        let mut block1 = Model::<T>::new(1, 1, Sym::No, 1);
        block1.t.push((0, 0, T::make(6)));
        let mut block2 = Model::<T>::new(1, 2, Sym::No, 2);
        block2.t.push((0, 0, T::make(6)));
        block2.t.push((0, 1, T::make(-6)));
        let mut block3 = Model::<T>::new(1, 1, Sym::YesFull, 1);
        block3.t.push((0, 0, T::make(6)));
        let blocks = [block1, block2, block3];
        let puts: Vec<(usize, usize)> = vec![(0, 0), (m - 1, 0), (0, n - 1), (m, 0), (0, n)];
        // put, reset, assign, add, lagrange, scale values
        let n_ops = puts.len() + 1 + 2 * others.len() + blocks.len() + 1 + n_extra;
        for len in 0..=depth {
            for idx in 0..pow(n_ops, len) {
                let seq = digits(idx, n_ops, len);
                ctx.case(format!("{:?} {}x{} cap={} ops={:?}", sym, m, n, cap, seq), |t| {
                    let mut k = Model::<T>::new(m, n, sym, cap);
                    let mut c = NumCooMatrix::<T>::new(m, n, cap, sym)?;
                    for (step, op) in seq.iter().enumerate() {
                        t.op();
                        let mut op = *op;
                        if op < puts.len() {
                            let (i, j) = puts[op];
                            let v = T::make([2, -2, 5, 1, 3][step]);
                            let ok = i < m && j < n && k.t.len() < cap && allowed(sym, i, j);
                            let r = c.put(i, j, v);
                            ensure!(r.is_ok() == ok, "put({}, {}) gives {:?}", i, j, r);
                            if ok {
                                k.t.push((i, j, v));
                            }
                            continue;
                        }
                        op -= puts.len();
                        if op == 0 {
                            c.reset();
                            k.t.clear();
                            continue;
                        }
                        op -= 1;
                        if op < 2 * others.len() {
                            let o = &others[op / 2];
                            let alpha = T::make(if step % 2 == 0 { 1 } else { -2 });
                            let add = op % 2 == 0;
                            let r = if add { c.add(alpha, &o.coo()) } else { c.assign(alpha, &o.coo()) };
                            let fits = if add { o.m <= m && o.n <= n && k.t.len() + o.t.len() <= cap } else { o.m == m && o.n == n && o.t.len() <= cap };
                            let ok = fits && o.sym == sym;
                            ensure!(r.is_ok() == ok, "{} gives {:?}", if add { "add" } else { "assign" }, r);
                            if ok {
                                if !add {
                                    k.t.clear();
                                }
                                for (i, j, v) in &o.t {
                                    k.t.push((*i, *j, alpha * *v));
                                }
                            }
                            continue;
                        }
                        op -= 2 * others.len();
                        if op < blocks.len() {
                            let b = &blocks[op];
                            let r = c.put_lagrange_block(&b.coo());
                            let need = if tri(sym) { b.t.len() } else { 2 * b.t.len() };
                            let ok = b.sym == Sym::No && b.m + b.n <= m && b.m + b.n <= n && k.t.len() + need <= cap;
                            ensure!(r.is_ok() == ok, "put_lagrange_block gives {:?}", r);
                            if ok {
                                for (i, j, v) in &b.t {
                                    if sym != Sym::YesUpper {
                                        k.t.push((b.n + i, *j, *v));
                                    }
                                    if sym != Sym::YesLower {
                                        k.t.push((*j, b.n + i, *v));
                                    }
                                }
                            }
                            continue;
                        }
                        op -= blocks.len();
                        if op == 0 {
                            for v in c.get_values_mut() {
                                *v *= T::make(3);
                            }
                            for e in k.t.iter_mut() {
                                e.2 = e.2 * T::make(3);
                            }
                            continue;
                        }
                        if let Some(r) = extra(&mut c, &mut k, op - 1) {
                            r?;
                        }
                    }
                    check_coo(&c, &k)?;
                    if !k.t.is_empty() {
                        check_comp("CSC", Comp::Csc(&NumCscMatrix::from_coo(&c)?), &k)?;
                        check_comp("CSR", Comp::Csr(&NumCsrMatrix::from_coo(&c)?), &k)?;
                    }
                    let h: Vec<(usize, usize, (u64, u64))> = k.t.iter().map(|(i, j, v)| (*i, *j, v.hash())).collect();
                    t.state(&(w, h));
                    Ok(())
                });
            }
        }
    });
}

/// Long assemblies: a matrix with its Lagrange block, copied, added, and assembled again in the same object
fn blocks<T: Item>(run: &mut Run, name: &str) {
    let shapes: Vec<(usize, usize)> = vec![(1, 1), (1, 9), (2, 5), (3, 3), (4, 11), (7, 8), (10, 23), (16, 17), (33, 40)];
    run.section(name, shapes.len() * SYMS.len(), |ctx, w| {
        let sym = SYMS[w % SYMS.len()];
        let (p, q) = shapes[w / SYMS.len()];
        for stride in [1, 2, 3, 5] {
            for spare in 0..3 {
                ctx.case(format!("{:?} block {}x{} every {} spare {}", sym, p, q, stride, spare), |t| {
                    t.ops(6);
                    let mut b = Model::<T>::new(p, q, Sym::No, p * q);
                    for k in (0..p * q).step_by(stride) {
                        b.t.push((k / q, k % q, T::make((k % 9) as i64 - 4)));
                    }
                    let size = p + q + spare;
                    let mut k = Model::<T>::new(size, size, sym, 0);
                    for i in 0..q {
                        for j in [i, (i * 3) % q, i / 2] {
                            let (r, c) = if sym == Sym::YesUpper { (i.min(j), i.max(j)) } else { (i.max(j), i.min(j)) };
                            k.t.push((r, c, T::make((i + 2 * j) as i64 % 7 - 3)));
                        }
                    }
                    let first = k.t.clone();
                    for (i, j, v) in &b.t {
                        if sym != Sym::YesUpper {
                            k.t.push((q + i, *j, *v));
                        }
                        if sym != Sym::YesLower {
                            k.t.push((*j, q + i, *v));
                        }
                    }
                    k.cap = k.t.len();
                    let mut c = NumCooMatrix::<T>::new(size, size, k.cap, sym)?;
                    let block = b.coo();
                    // (twice in the same object)
                    for _ in 0..2 {
                        c.reset();
                        for (i, j, v) in &first {
                            c.put(*i, *j, *v)?;
                        }
                        c.put_lagrange_block(&block)?;
                        check_coo(&c, &k)?;
                        check_comp("CSC", Comp::Csc(&NumCscMatrix::from_coo(&c)?), &k)?;
                        check_comp("CSR", Comp::Csr(&NumCsrMatrix::from_coo(&c)?), &k)?;
                    }
                    ensure!(c.put_lagrange_block(&block).is_err() && c.put(size - 1, size - 1, T::make(1)).is_err(), "more than the capacity accepted");
                    check_coo(&c, &k)?;
                    // a scaled copy, and the sum of both
                    let mut d = NumCooMatrix::<T>::new(size, size, 2 * k.cap, sym)?;
                    d.assign(T::make(2), &c)?;
                    d.add(T::make(-1), &c)?;
                    let mut s = Model::<T>::new(size, size, sym, 2 * k.cap);
                    for f in [2, -1] {
                        for (i, j, v) in &k.t {
                            s.t.push((*i, *j, T::make(f) * *v));
                        }
                    }
                    check_coo(&d, &s)?;
                    ensure!(d.add(T::make(1), &c).is_err(), "more than the capacity accepted");
                    check_coo(&d, &s)?;
                    t.state(&(w, stride, spare));
                    Ok(())
                });
            }
        }
    });
}

/// Two matrices of all shapes and storages: operations are refused exactly if they do not fit, and change nothing then
fn operands<T: Item>(run: &mut Run, name: &str, with_real: fn(&mut NumCooMatrix<T>, bool, &Model<f64>) -> Option<Result<(), String>>) {
    run.section(name, 4 * 4 * SYMS.len(), |ctx, w| {
        let (m, n, sym) = (1 + w / SYMS.len() / 4, 1 + w / SYMS.len() % 4, SYMS[w % SYMS.len()]);
        if sym != Sym::No && m != n {
            return;
        }
        for code in 0..16 * SYMS.len() * 4 {
            let (p, q, other, used) = (1 + code / 16 / SYMS.len(), 1 + code / 4 / SYMS.len() % 4, SYMS[code / 4 % SYMS.len()], code % 4);
            if other != Sym::No && p != q {
                continue;
            }
            ctx.case(format!("{:?} {}x{} with {:?} {}x{}, {} used", sym, m, n, other, p, q, used), |t| {
                t.ops(7);
                // capacity of five, some of it used, and three or fewer entries in the other one
                let mut k = Model::<T>::new(m, n, sym, 5);
                for i in 0..used {
                    k.t.push(((m - 1).min(n - 1), (m - 1).min(n - 1), T::make(i as i64 + 1)));
                }
                let mut o = Model::<T>::new(p, q, other, 3);
                let mut real = Model::<f64>::new(p, q, other, 3);
                let places = positions(p, q, other);
                for x in 0..3 {
                    let (i, j) = places[x * (places.len() - 1) / 2];
                    o.t.push((i, j, T::make(x as i64 - 5)));
                    real.t.push((i, j, x as f64 - 5.0));
                }
                let oc = o.coo();
                let fit = used + 3 <= 5;
                for op in 0..5 {
                    let mut c = k.coo();
                    let (res, ok, want) = match op {
                        0 => (c.assign(T::make(1), &oc).map_err(|e| e.to_string()), m == p && n == q && sym == other, 3),
                        1 => (c.add(T::make(1), &oc).map_err(|e| e.to_string()), p <= m && q <= n && sym == other && fit, used + 3),
                        2 => {
                            let extra = if sym == Sym::YesLower || sym == Sym::YesUpper { 3 } else { 6 };
                            (c.put_lagrange_block(&oc).map_err(|e| e.to_string()), other == Sym::No && p + q <= m.min(n) && used + extra <= 5, used + extra)
                        }
                        _ => {
                            let Some(r) = with_real(&mut c, op == 3, &real) else { continue };
                            if op == 3 {
                                (r, m == p && n == q && sym == other, 3)
                            } else {
                                (r, p <= m && q <= n && sym == other && fit, used + 3)
                            }
                        }
                    };
                    ensure!(res.is_ok() == ok, "operation {op}: {res:?}");
                    if ok {
                        ensure!(c.get_nnz() == want, "operation {op}: {} entries instead of {want}", c.get_nnz());
                    } else {
                        check_coo(&c, &k).map_err(|e| format!("refused operation {op}: {e}"))?;
                    }
                }
                // compressed matrices are updated only from a matrix of the same shape, storage and number of entries
                if used > 0 {
                    let (mut csc, mut csr) = (NumCscMatrix::from_coo(&k.coo())?, NumCsrMatrix::from_coo(&k.coo())?);
                    let ok = m == p && n == q && sym == other && used == 3;
                    // (a matrix with the same number of entries)
                    let (a, b) = (csc.update_from_coo(&oc), csr.update_from_coo(&oc));
                    ensure!(a.is_ok() == ok && b.is_ok() == ok, "updates: {a:?} and {b:?}");
                    if !ok {
                        check_comp("CSC", Comp::Csc(&csc), &k)?;
                        check_comp("CSR", Comp::Csr(&csr), &k)?;
                    }
                }
                t.state(&(w, code));
                Ok(())
            });
        }
    });
}

pub fn explore(run: &mut Run) {
    run.level(
        "model_checking",
        "all lists of triples up to a length on all shapes up to 4x4 with every symmetric storage, through every conversion; all sequences of in-place updates of one compressed object; all sequences of assembly operations on a COO matrix of small capacity; real and complex",
    );
    run.assume("integer arithmetic in f64 is exact");
    patterns::<f64>(run, "patterns real");
    patterns::<Complex64>(run, "patterns complex");
    strides::<f64>(run, "strides real");
    strides::<Complex64>(run, "strides complex");
    updates::<f64>(run, "updates real");
    updates::<Complex64>(run, "updates complex");
    blocks::<f64>(run, "blocks real");
    blocks::<Complex64>(run, "blocks complex");
    operands::<f64>(run, "operands real", |_, _, _| None);
    operands::<Complex64>(run, "operands complex", |c, assign, o| {
        let r = if assign { c.assign_real(2.0, -3.0, &o.coo()) } else { c.add_real(2.0, -3.0, &o.coo()) };
        Some(r.map_err(|e| e.to_string()))
    });
    histories::<f64>(run, "histories real", |_, _, _| None, 0);
    histories::<Complex64>(
        run,
        "histories complex",
        |c, k, op| {
            // assign_real and add_real
            let mut o = Model::<f64>::new(if op == 2 { 1 } else { k.m }, if op == 2 { 1 } else { k.n }, k.sym, 2);
            o.t.push((0, 0, 5.0));
            let p = positions(o.m, o.n, o.sym);
            let last = p[p.len() - 1];
            o.t.push((last.0, last.1, 7.0));
            let (alpha, beta) = (2.0, -3.0);
            let r = if op == 0 { c.assign_real(alpha, beta, &o.coo()) } else { c.add_real(alpha, beta, &o.coo()) };
            let ok = if op == 0 { 2 <= k.cap } else { k.t.len() + 2 <= k.cap };
            if r.is_ok() != ok {
                return Some(Err(format!("assign_real/add_real gives {:?}", r)));
            }
            if ok {
                if op == 0 {
                    k.t.clear();
                }
                for (i, j, v) in &o.t {
                    k.t.push((*i, *j, Complex64::new(alpha * v, beta * v)));
                }
            }
            Some(Ok(()))
        },
        3,
    );
}
