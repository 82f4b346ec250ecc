//! S02: constructors accept exactly the valid data

use crate::s01::{allowed, check_comp, check_coo, Comp, Item, Model, SYMS};
use mc::*;
use num_complex::Complex64;
use russell_sparse::prelude::*;

fn coo_new(run: &mut Run) {
    run.section("COO new", 4 * 4 * 4 * 4, |ctx, w| {
        let d = digits(w, 4, 4);
        let sym = SYMS[d[3]];
        ctx.case(format!("{}x{} max={} {:?}", d[0], d[1], d[2], sym), |t| {
            t.op();
            let valid = d[0] > 0 && d[1] > 0 && d[2] > 0 && (sym == Sym::No || d[0] == d[1]);
            let r = guarded(|| NumCooMatrix::<f64>::new(d[0], d[1], d[2], sym))?;
            ensure!(r.is_ok() == valid, "new gives {:?}", r.err());
            if let Ok(mut c) = r {
                check_coo(&c, &Model::new(d[0], d[1], sym, d[2]))?;
                for _ in 0..d[2] {
                    c.put(0, 0, 1.0)?;
                }
                ensure!(c.put(0, 0, 1.0).is_err(), "more than max_nnz entries");
            }
            t.state(&d);
            Ok(())
        });
    });
}

fn coo_from<T: Item>(run: &mut Run, name: &str) {
    // dimensions x lengths of the three arrays x symmetry
    let max_len = run.pick(2, 3);
    let lens = max_len + 1;
    run.section(name, 3 * 3 * 4 * lens * lens * lens, |ctx, w| {
        let d = digits(w, lens, 3);
        let rest = w / pow(lens, 3);
        let (m, n, sym) = (rest % 3, rest / 3 % 3, SYMS[rest / 9]);
        let set = [-1, 0, 1, 2, i32::MAX, i32::MIN];
        for ii in 0..pow(set.len(), d[0]) {
            for jj in 0..pow(set.len(), d[1]) {
                let ri: Vec<i32> = digits(ii, set.len(), d[0]).iter().map(|k| set[*k]).collect();
                let ci: Vec<i32> = digits(jj, set.len(), d[1]).iter().map(|k| set[*k]).collect();
                ctx.case(format!("{}x{} {:?} rows={:?} cols={:?} values={}", m, n, sym, ri, ci, d[2]), |t| {
                    t.op();
                    let va: Vec<T> = (0..d[2]).map(|k| T::make(3 * k as i64 + 2)).collect();
                    let mut valid = m > 0 && n > 0 && d[0] > 0 && d[0] == d[1] && d[0] == d[2] && (sym == Sym::No || m == n);
                    if valid {
                        for k in 0..d[0] {
                            let (i, j) = (ri[k], ci[k]);
                            valid &= i >= 0 && j >= 0 && (i as usize) < m && (j as usize) < n && allowed(sym, i as usize, j as usize);
                        }
                    }
                    let r = guarded(|| NumCooMatrix::<T>::from(m, n, ri.clone(), ci.clone(), va.clone(), sym))?;
                    ensure!(r.is_ok() == valid, "from gives {:?} for {} data", r.as_ref().err(), if valid { "valid" } else { "invalid" });
                    if let Ok(mut c) = r {
                        let mut k = Model::new(m, n, sym, d[0]);
                        for q in 0..d[0] {
                            k.t.push((ri[q] as usize, ci[q] as usize, va[q]));
                        }
                        check_coo(&c, &k)?;
                        ensure!(c.put(0, 0, T::make(1)).is_err(), "capacity is not the number of entries");
                        c.reset();
                        c.put(0, 0, T::make(5))?;
                        k.t = vec![(0, 0, T::make(5))];
                        check_coo(&c, &k)?;
                    }
                    t.state(&(m, n, sym as usize, &ri, &ci, d[2]));
                    Ok(())
                });
            }
        }
    });
}

fn compressed<T: Item>(run: &mut Run, name: &str) {
    // (major, minor) with pointer length np, index length ni, value length nv
    let max_len = run.pick(3, 4);
    let mut work = Vec::new();
    for major in 0..3usize {
        for minor in 0..3usize {
            for np in 0..=major + 2 {
                for ni in 0..=max_len {
                    for nv in 0..=max_len {
                        for sym in SYMS {
                            work.push((major, minor, np, ni, nv, sym));
                        }
                    }
                }
            }
        }
    }
    run.section(name, work.len(), |ctx, w| {
        let (major, minor, np, ni, nv, sym) = work[w];
        let ptrs = [-1, 0, 1, 2, 3, 5, i32::MAX, i32::MIN];
        let idxs = [-1, 0, 1, 2];
        // wrong lengths are refused whatever the contents; keep the contents few
        let wrong = major == 0 || minor == 0 || np != major + 1;
        for ip in 0..pow(ptrs.len(), np) {
            let ptr: Vec<i32> = digits(ip, ptrs.len(), np).iter().map(|k| ptrs[*k]).collect();
            if wrong && ip % 7 != 0 {
                continue;
            }
            for ii in 0..(if wrong { 1 } else { pow(idxs.len(), ni) }) {
                let idx: Vec<i32> = digits(ii, idxs.len(), ni).iter().map(|k| idxs[*k]).collect();
                ctx.case(format!("{}/{} {:?} pointers={:?} indices={:?} values={}", major, minor, sym, ptr, idx, nv), |t| {
                    let va: Vec<T> = (0..nv).map(|k| T::make(3 * k as i64 + 2)).collect();
                    for is_csc in [true, false] {
                        t.op();
                        let (m, n) = if is_csc { (minor, major) } else { (major, minor) };
                        let mut valid = !wrong && (sym == Sym::No || m == n);
                        valid = valid && ptr[0] == 0 && ptr[major] >= 1 && (0..major).all(|k| ptr[k] <= ptr[k + 1]);
                        valid = valid && ptr[major] as usize <= ni && ptr[major] as usize <= nv;
                        let mut repeated = false;
                        let mut k = Model::new(m, n, sym, nv);
                        if valid {
                            for a in 0..major {
                                for p in ptr[a] as usize..ptr[a + 1] as usize {
                                    let b = idx[p];
                                    if b < 0 || b as usize >= minor {
                                        valid = false;
                                        continue;
                                    }
                                    let (i, j) = if is_csc { (b as usize, a) } else { (a, b as usize) };
                                    valid &= allowed(sym, i, j);
                                    if p > ptr[a] as usize {
                                        valid &= idx[p - 1] <= b;
                                        repeated |= idx[p - 1] == b;
                                    }
                                    k.t.push((i, j, va[p]));
                                }
                            }
                        }
                        let what = if is_csc { "CSC" } else { "CSR" };
                        let ok;
                        if is_csc {
                            let r = guarded(|| NumCscMatrix::<T>::new(m, n, ptr.clone(), idx.clone(), va.clone(), sym))?;
                            ok = r.is_ok();
                            if let (Ok(c), true, false) = (r, valid, repeated) {
                                // extra capacity is allowed
                                if ptr[major] as usize == ni && ni == nv {
                                    check_comp(what, Comp::Csc(&c), &k)?;
                                    check_comp("converted", Comp::Csr(&NumCsrMatrix::from_csc(&c)?), &k)?;
                                }
                                ensure!(c.get_values() == &va[..ptr[major] as usize] || c.get_values() == &va[..], "{}: values", what);
                                ensure!(c.as_dense().as_data() == k.coo().as_dense().as_data(), "{}: dense", what);
                            }
                        } else {
                            let r = guarded(|| NumCsrMatrix::<T>::new(m, n, ptr.clone(), idx.clone(), va.clone(), sym))?;
                            ok = r.is_ok();
                            if let (Ok(c), true, false) = (r, valid, repeated) {
                                if ptr[major] as usize == ni && ni == nv {
                                    check_comp(what, Comp::Csr(&c), &k)?;
                                    check_comp("converted", Comp::Csc(&NumCscMatrix::from_csr(&c)?), &k)?;
                                }
                                ensure!(c.get_values() == &va[..ptr[major] as usize] || c.get_values() == &va[..], "{}: values", what);
                                ensure!(c.as_dense().as_data() == k.coo().as_dense().as_data(), "{}: dense", what);
                            }
                        }
                        // repeated indices within a column/row are not decided here
                        ensure!(ok == valid || (valid && repeated), "{}: new accepts={} for {} data", what, ok, if valid { "valid" } else { "invalid" });
                    }
                    t.state(&(major, minor, sym as usize, &ptr, &idx, nv));
                    Ok(())
                });
            }
        }
    });
}

/// A larger valid matrix with a single fault at every position
fn one_fault(run: &mut Run) {
    let sizes: Vec<usize> = if run.thorough() { vec![3, 4, 6, 7, 8, 12, 17, 33, 40] } else { vec![3, 5, 8, 17, 33] };
    run.section("one fault", sizes.len() * 4, |ctx, w| {
        let (n, sym) = (sizes[w / 4], SYMS[w % 4]);
        // columns of a lower or full pattern; rows of an upper one are the same arrays
        let lists: Vec<Vec<i32>> = (0..n)
            .map(|a| (0..n).filter(|b| (sym == Sym::No || *b >= a) && (a * 5 + b * 3) % 4 != 1 || *b == a).map(|b| b as i32).collect())
            .collect();
        let mut ptr = vec![0i32];
        let mut minor: Vec<i32> = Vec::new();
        let mut major: Vec<i32> = Vec::new();
        for (a, list) in lists.iter().enumerate() {
            minor.extend(list);
            major.extend(list.iter().map(|_| a as i32));
            ptr.push(minor.len() as i32);
        }
        let va: Vec<f64> = (0..minor.len()).map(|k| k as f64 + 1.0).collect();
        let csc_ok = sym == Sym::No || sym == Sym::YesFull || sym == Sym::YesLower;
        let csr_ok = sym == Sym::No || sym == Sym::YesFull || sym == Sym::YesUpper;
        let news = |p: &Vec<i32>, i: &Vec<i32>, v: &Vec<f64>| {
            let csc = guarded(|| CscMatrix::new(n, n, p.clone(), i.clone(), v.clone(), sym).is_ok());
            let csr = guarded(|| CsrMatrix::new(n, n, p.clone(), i.clone(), v.clone(), sym).is_ok());
            (csc, csr)
        };
        ctx.case(format!("order {n} {sym:?} valid"), |t| {
            t.ops(4);
            t.state(&(n, w % 4));
            ensure!(news(&ptr, &minor, &va) == (Ok(csc_ok), Ok(csr_ok)), "valid columns or rows: {:?}", news(&ptr, &minor, &va));
            ensure!(CooMatrix::from(n, n, minor.clone(), major.clone(), va.clone(), sym).is_ok() == csc_ok, "valid triplets below the diagonal");
            ensure!(CooMatrix::from(n, n, major.clone(), minor.clone(), va.clone(), sym).is_ok() == csr_ok, "valid triplets above the diagonal");
            Ok(())
        });
        for k in 0..minor.len() {
            for kind in 0..4 {
                ctx.case(format!("order {n} {sym:?} entry {k} fault {kind}"), |t| {
                    t.ops(4);
                    t.state(&(n, w % 4, k, kind));
                    let (mut i, mut j) = (minor.clone(), major.clone());
                    let triangle = sym == Sym::YesLower || sym == Sym::YesUpper;
                    match kind {
                        0 => i[k] = -1,
                        1 => i[k] = n as i32,
                        // two indices of one column or row exchanged
                        2 if k + 1 < i.len() && j[k] == j[k + 1] => i.swap(k, k + 1),
                        // outside of the triangle
                        3 if triangle && j[k] > 0 => i[k] = j[k] - 1,
                        _ => {
                            t.trivial();
                            return Ok(());
                        }
                    }
                    ensure!(news(&ptr, &i, &va) == (Ok(false), Ok(false)), "wrong index accepted: {:?}", news(&ptr, &i, &va));
                    // the order of triplets is free
                    if kind != 2 {
                        let r = (guarded(|| CooMatrix::from(n, n, i.clone(), j.clone(), va.clone(), sym).is_ok())?, guarded(|| CooMatrix::from(n, n, j.clone(), i.clone(), va.clone(), sym).is_ok())?);
                        ensure!(r == (false, false), "wrong triplet accepted: {:?}", r);
                    }
                    if kind < 2 && sym == Sym::No {
                        j.swap(0, k);
                        let r = guarded(|| CooMatrix::from(n, n, j.clone(), i.clone(), va.clone(), sym).is_ok())?;
                        ensure!(!r, "wrong triplet accepted");
                    }
                    Ok(())
                });
            }
        }
        for a in 0..=n {
            for kind in 0..4 {
                ctx.case(format!("order {n} {sym:?} pointer {a} fault {kind}"), |t| {
                    t.ops(2);
                    t.state(&(n, w % 4, a, kind));
                    let mut p = ptr.clone();
                    match kind {
                        0 => p[a] = -1,
                        1 if a == 0 => p[0] = 1,
                        1 if a > 0 => p[a] = p[a - 1] - 1,
                        2 if a < n => p[a] = p[a + 1] + 1,
                        2 => p[a] = minor.len() as i32 + 1,
                        3 if a > 0 => {
                            p.remove(a);
                        }
                        _ => p.push(ptr[n]),
                    }
                    ensure!(news(&p, &minor, &va) == (Ok(false), Ok(false)), "wrong pointers accepted: {:?}", news(&p, &minor, &va));
                    // arrays shorter than the last pointer
                    let cut = minor[..minor.len() - 1].to_vec();
                    let few = va[..va.len() - 1].to_vec();
                    ensure!(news(&ptr, &cut, &va) == (Ok(false), Ok(false)), "too few indices accepted");
                    ensure!(news(&ptr, &minor, &few) == (Ok(false), Ok(false)), "too few values accepted");
                    Ok(())
                });
            }
        }
    });
}

pub fn explore(run: &mut Run) {
    run.level(
        "exploration",
        "all dimensions 0..3, all pointer, index and value arrays up to a length over in-range, out-of-range and extreme integers, all symmetric storages; expected verdict from the definition of a valid matrix",
    );
    run.assume("dimensions and counts fit i32, as documented; repeated indices within one column or row may be accepted or refused");
    coo_new(run);
    coo_from::<f64>(run, "COO from real");
    coo_from::<Complex64>(run, "COO from complex");
    compressed::<f64>(run, "compressed real");
    compressed::<Complex64>(run, "compressed complex");
    one_fault(run);
}
