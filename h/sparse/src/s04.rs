//! S04: Matrix Market files

use crate::s01::SYMS;
use mc::*;
use num_complex::Complex64;
use russell_sparse::prelude::*;
use std::fs;
use std::path::PathBuf;

/// Dense real or complex matrix (the imaginary part is zero for real matrices)
type Dense = Vec<Vec<(f64, f64)>>;

fn bits(a: f64) -> u64 {
    if a.is_nan() {
        1
    } else {
        (a + 0.0).to_bits()
    }
}

fn same(a: &Dense, b: &Dense) -> bool {
    a.len() == b.len()
        && a.iter().zip(b).all(|(x, y)| x.len() == y.len() && x.iter().zip(y).all(|(p, q)| bits(p.0) == bits(q.0) && bits(p.1) == bits(q.1)))
}

/// Result of a reader
#[derive(Clone, Debug)]
struct Parsed {
    complex: bool,
    sym: Sym,
    nnz: usize,
    dense: Dense,
}

/// Reference reader; the flag tells whether the text follows the format to the letter
fn reference(bytes: &[u8], handling: MMsym) -> Option<(Parsed, bool)> {
    let text = std::str::from_utf8(bytes).ok()?;
    let mut strict = true;
    let mut lines = text.split('\n').map(|l| l.strip_suffix('\r').unwrap_or(l));
    let head: Vec<&str> = lines.next()?.split_whitespace().collect();
    if head.len() < 5 || head[0] != "%%MatrixMarket" || head[1] != "matrix" || head[2] != "coordinate" {
        return None;
    }
    strict &= head.len() == 5;
    let complex = match head[3] {
        "real" => false,
        "complex" => true,
        _ => return None,
    };
    let symmetric = match head[4] {
        "general" => false,
        "symmetric" => true,
        _ => return None,
    };
    let mut dims: Option<(usize, usize, usize)> = None;
    let mut triples = Vec::new();
    for line in lines {
        let tk: Vec<&str> = line.split_whitespace().collect();
        if tk.is_empty() || tk[0].starts_with('%') {
            continue;
        }
        match dims {
            None => {
                if tk.len() < 3 {
                    return None;
                }
                strict &= tk.len() == 3;
                let mut v = [0usize; 3];
                for k in 0..3 {
                    let x: i32 = tk[k].parse().ok()?;
                    if x < 1 {
                        return None;
                    }
                    v[k] = x as usize;
                }
                if symmetric && v[0] != v[1] {
                    return None;
                }
                dims = Some((v[0], v[1], v[2]));
            }
            Some((m, n, nnz)) => {
                let need = if complex { 4 } else { 3 };
                if tk.len() < need || triples.len() == nnz {
                    return None;
                }
                strict &= tk.len() == need;
                let i: i32 = tk[0].parse().ok()?;
                let j: i32 = tk[1].parse().ok()?;
                if i < 1 || j < 1 || i as usize > m || j as usize > n {
                    return None;
                }
                let a: f64 = tk[2].parse().ok()?;
                let b: f64 = if complex { tk[3].parse().ok()? } else { 0.0 };
                if symmetric && j > i {
                    return None; // only the lower triangle may be given
                }
                triples.push((i as usize - 1, j as usize - 1, a, b));
            }
        }
    }
    let (m, n, nnz) = dims?;
    if triples.len() != nnz {
        return None;
    }
    let mut dense = vec![vec![(0.0, 0.0); n]; m];
    let mut count = 0;
    for (i, j, a, b) in triples {
        dense[i][j].0 += a;
        dense[i][j].1 += b;
        count += 1;
        if symmetric && i != j {
            dense[j][i].0 += a;
            dense[j][i].1 += b;
            if handling == MMsym::MakeItFull {
                count += 1;
            }
        }
    }
    let sym = match (symmetric, handling) {
        (false, _) => Sym::No,
        (true, MMsym::LeaveAsLower) => Sym::YesLower,
        (true, MMsym::SwapToUpper) => Sym::YesUpper,
        (true, MMsym::MakeItFull) => Sym::YesFull,
    };
    Some((Parsed { complex, sym, nnz: count, dense }, strict))
}

fn actual(path: &PathBuf, handling: MMsym) -> Result<Result<Parsed, &'static str>, String> {
    guarded(|| {
        let (r, c) = read_matrix_market(path, handling)?;
        match (r, c) {
            (Some(r), None) => {
                let (m, n, nnz, sym) = r.get_info();
                let a = r.as_dense();
                let dense = (0..m).map(|i| (0..n).map(|j| (a.get(i, j), 0.0)).collect()).collect();
                Ok(Parsed { complex: false, sym, nnz, dense })
            }
            (None, Some(c)) => {
                let (m, n, nnz, sym) = c.get_info();
                let a = c.as_dense();
                let dense = (0..m).map(|i| (0..n).map(|j| (a.get(i, j).re, a.get(i, j).im)).collect()).collect();
                Ok(Parsed { complex: true, sym, nnz, dense })
            }
            _ => Err("HARNESS: both or none of the matrices returned"),
        }
    })
}

const HANDLING: [MMsym; 3] = [MMsym::LeaveAsLower, MMsym::SwapToUpper, MMsym::MakeItFull];

/// Reads some bytes with every handling and compares with the reference reader
fn check_bytes(t: &mut Trace, path: &PathBuf, bytes: &[u8], must: bool) -> Outcome {
    fs::write(path, bytes).map_err(|e| e.to_string())?;
    for h in HANDLING {
        t.op();
        let expect = reference(bytes, h);
        let got = actual(path, h)?;
        match (&expect, &got) {
            (None, Err(e)) => ensure!(!e.starts_with("HARNESS"), "{}", e),
            (None, Ok(p)) => fail!("malformed text accepted as {:?}", p),
            (Some((_, strict)), Err(e)) => ensure!(!*strict && !must, "valid text refused: {}", e),
            (Some((p, _)), Ok(q)) => {
                ensure!(p.complex == q.complex && p.sym == q.sym && p.nnz == q.nnz, "read {:?} instead of {:?}", q, p);
                ensure!(same(&p.dense, &q.dense), "read {:?} instead of {:?}", q.dense, p.dense);
            }
        }
    }
    t.state(&bytes);
    Ok(())
}

const FILES: [(&str, &str); 7] = [
    ("real general", "%%MatrixMarket matrix coordinate real general\n3 2 3\n1 1 1.5\n3 2 -2e-3\n2 1 7\n"),
    ("real symmetric", "%%MatrixMarket matrix coordinate real symmetric\n% comment\n\n2 2 3\n1 1 1.5\n2 1 -4\n2 2 3.25\n"),
    ("complex general", "%%MatrixMarket matrix coordinate complex general\n2 3 3\n1 1 1.5 2.5\n2 3 -4 0\n1 2 0 -1\n"),
    ("complex symmetric", "%%MatrixMarket matrix coordinate complex symmetric\n3 3 3\n1 1 1.5 0.5\n3 1 -4 2\n3 3 3.25 -1\n"),
    ("comments", "%%MatrixMarket   matrix coordinate real general \n%\n  %x\n\n 1 1 2 \n% between\n  1 1 4\n\n1  1 5\n% end\n\n"),
    ("repeated", "%%MatrixMarket matrix coordinate real symmetric\n2 2 4\n2 1 1\n2 1 2\n1 1 3\n1 1 -3\n"),
    ("tabs and no final newline", "%%MatrixMarket\tmatrix coordinate complex general\r\n1\t2\t2\r\n1\t1\t3 4\r\n1 2 5 6"),
];

const TOKENS: [&str; 22] = [
    "", "x", "-1", "0", "1", "2", "3", "4", "99999999999", "-2147483648", "2147483648", "1.5", "nan", "inf", "1e999", "-0.0", "%", "%%MatrixMarket", "symmetric", "general", "real", "complex",
];

fn corruptions(run: &mut Run) {
    run.section("corruptions", FILES.len(), |ctx, w| {
        let (name, text) = FILES[w];
        let path = PathBuf::from(format!("{}/corrupt-{}.mtx", scratch(), w));
        ctx.case(format!("{}: as is", name), |t| check_bytes(t, &path, text.as_bytes(), true));
        let crlf = text.replace('\r', "").replace('\n', "\r\n");
        ctx.case(format!("{}: CRLF", name), |t| check_bytes(t, &path, crlf.as_bytes(), true));
        // truncation after every byte
        for k in 0..text.len() {
            ctx.case(format!("{}: truncated at {}", name, k), |t| check_bytes(t, &path, &text.as_bytes()[..k], false));
        }
        // every byte replaced
        let extra: Vec<u8> = if ctx.thorough() { (0..=255).collect() } else { b"\0\t\n\r %+-.0123459eEgmn\x7f\x80\xc3\xff".to_vec() };
        for k in 0..text.len() {
            for b in &extra {
                let mut v = text.as_bytes().to_vec();
                v[k] = *b;
                ctx.case(format!("{}: byte {} is {}", name, k, b), |t| check_bytes(t, &path, &v, false));
                // inserted
                let mut v = text.as_bytes().to_vec();
                v.insert(k, *b);
                ctx.case(format!("{}: {} inserted at {}", name, b, k), |t| check_bytes(t, &path, &v, false));
            }
            let mut v = text.as_bytes().to_vec();
            v.remove(k);
            ctx.case(format!("{}: byte {} removed", name, k), |t| check_bytes(t, &path, &v, false));
        }
        // every token replaced
        let lines: Vec<Vec<String>> = text.lines().map(|l| l.split_whitespace().map(|s| s.to_string()).collect()).collect();
        let join = |ls: &[Vec<String>]| ls.iter().map(|l| l.join(" ")).collect::<Vec<_>>().join("\n");
        for i in 0..lines.len() {
            for j in 0..=lines[i].len() {
                for tk in TOKENS {
                    let mut ls = lines.clone();
                    if j < ls[i].len() {
                        ls[i][j] = tk.to_string();
                        let s = join(&ls);
                        ctx.case(format!("{}: line {} token {} is {:?}", name, i, j, tk), |t| check_bytes(t, &path, s.as_bytes(), false));
                    }
                    let mut ls = lines.clone();
                    ls[i].insert(j, tk.to_string());
                    let s = join(&ls);
                    ctx.case(format!("{}: line {} token {:?} inserted at {}", name, i, tk, j), |t| check_bytes(t, &path, s.as_bytes(), false));
                }
            }
        }
        // lines removed, doubled, exchanged, moved; comments and blanks inserted
        for i in 0..lines.len() {
            let mut ls = lines.clone();
            ls.remove(i);
            let s = join(&ls);
            ctx.case(format!("{}: line {} removed", name, i), |t| check_bytes(t, &path, s.as_bytes(), false));
            for k in 0..lines.len() {
                let mut ls = lines.clone();
                ls.insert(k, lines[i].clone());
                let s = join(&ls);
                ctx.case(format!("{}: line {} copied to {}", name, i, k), |t| check_bytes(t, &path, s.as_bytes(), false));
                let mut ls = lines.clone();
                ls.swap(i, k);
                let s = join(&ls);
                ctx.case(format!("{}: lines {} and {} exchanged", name, i, k), |t| check_bytes(t, &path, s.as_bytes(), false));
            }
            for ins in ["", "   ", "% note", "  % 1 1 1", "%%MatrixMarket x"] {
                let mut ls = lines.clone();
                ls.insert(i + 1, vec![ins.to_string()]);
                let s = join(&ls);
                ctx.case(format!("{}: {:?} after line {}", name, ins, i), |t| check_bytes(t, &path, s.as_bytes(), true));
            }
        }
        let _ = fs::remove_file(&path);
    });
}

/// All texts made of a few lines from a small alphabet
fn assembled(run: &mut Run) {
    let alphabet = ["%%MatrixMarket matrix coordinate real general", "%%MatrixMarket matrix coordinate complex symmetric", "2 2 1", "2 2 2", "1 1 3", "2 1 4 5", "1 2 6 7", "% c", "", "2 3 1"];
    let depth = run.pick(4, 6);
    run.section("assembled", pow(alphabet.len(), 2), |ctx, w| {
        let path = PathBuf::from(format!("{}/assembled-{}.mtx", scratch(), w));
        for len in 1..=depth {
            for rest in 0..(if len > 2 { pow(alphabet.len(), len - 2) } else { 1 }) {
                let mut d = vec![w % alphabet.len(), w / alphabet.len()];
                if len > 2 {
                    d.extend(digits(rest, alphabet.len(), len - 2));
                }
                if len == 1 {
                    if w / alphabet.len() > 0 {
                        continue;
                    }
                    d.truncate(1);
                }
                if d[0] > 2 && len > 3 {
                    continue; // a wrong header is refused whatever follows
                }
                let s: Vec<&str> = d.iter().map(|k| alphabet[*k]).collect();
                let s = s.join("\n");
                ctx.case(format!("lines={:?}", d), |t| check_bytes(t, &path, s.as_bytes(), false));
            }
        }
        let _ = fs::remove_file(&path);
    });
}

const VALUES: [(f64, f64); 6] = [(1.5, -2.25), (1e-4, 3.0), (-1e-4, 1e-5), (0.0, -7.0), (-1.0e300, 0.1), (0.0, 0.0)];

/// Writes all small matrices and reads them back
/// Writes one matrix in both variants, and reads it back with every handling
fn one_round(t: &mut Trace, path: &PathBuf, complex: bool, sym: Sym, m: usize, n: usize, entries: &[(usize, usize, (f64, f64))], tol: f64) -> Outcome {
    let mut dense: Dense = vec![vec![(0.0, 0.0); n]; m];
    let mut listed = vec![vec![false; n]; m]; // entries above the tolerance
    let mut triples = Vec::new();
    for &(i, j, value) in entries {
        let mut v = value;
        if !complex {
            v.1 = 0.0;
        }
        triples.push((i, j, v));
        if sym == Sym::YesFull && i != j {
            triples.push((j, i, v));
        }
        if f64::abs(v.0) > tol || (complex && f64::abs(v.1) > tol) {
            dense[i][j] = v;
            listed[i][j] = true;
            if sym != Sym::No {
                dense[j][i] = v;
                listed[j][i] = true;
            }
        }
    }
    if triples.is_empty() {
        return Ok(());
    }
    let write = |vis: bool| -> Result<(), &'static str> {
        if complex {
            let mut c = ComplexCooMatrix::new(m, n, triples.len(), sym)?;
            for (i, j, v) in &triples {
                c.put(*i, *j, Complex64::new(v.0, v.1))?;
            }
            ComplexCscMatrix::from_coo(&c)?.write_matrix_market(path, vis, tol)
        } else {
            let mut c = CooMatrix::new(m, n, triples.len(), sym)?;
            for (i, j, v) in &triples {
                c.put(*i, *j, v.0)?;
            }
            CscMatrix::from_coo(&c)?.write_matrix_market(path, vis, tol)
        }
    };
    let kept = listed.iter().flatten().filter(|x| **x).count();
    // regular file
    t.op();
    write(false)?;
    let text = fs::read_to_string(path).map_err(|e| e.to_string())?;
    let body: Vec<&str> = text.lines().skip(2).collect();
    let lower: usize = (0..m).map(|i| (0..n).filter(|j| listed[i][*j] && (sym == Sym::No || *j <= i)).count()).sum();
    ensure!(body.len() == lower, "{} data lines instead of {}", body.len(), lower);
    ensure!(text.lines().nth(1) == Some(&format!("{} {} {}", m, n, lower)), "dimensions line {:?}", text.lines().nth(1));
    for h in HANDLING {
        t.op();
        let got = actual(path, h)?;
        if kept == 0 {
            ensure!(got.is_err(), "file without entries accepted");
            continue;
        }
        let got = got?;
        let full = match (sym, h) {
            (Sym::No, _) => Sym::No,
            (_, MMsym::LeaveAsLower) => Sym::YesLower,
            (_, MMsym::SwapToUpper) => Sym::YesUpper,
            _ => Sym::YesFull,
        };
        ensure!(got.complex == complex && got.sym == full, "read type");
        ensure!(same(&got.dense, &dense), "read back {:?} instead of {:?}", got.dense, dense);
    }
    // visualisation file
    t.op();
    write(true)?;
    let text = fs::read_to_string(path).map_err(|e| e.to_string())?;
    let mut lines = text.lines();
    ensure!(lines.next() == Some(&format!("{} {} {}", m, n, kept)), "first line of {:?}", text);
    let mut seen = vec![vec![false; n]; m];
    for l in lines {
        let tk: Vec<&str> = l.split_whitespace().collect();
        ensure!(tk.len() == 3, "vismatrix line {:?}", l);
        let (i, j): (usize, usize) = (tk[0].parse().map_err(|_| "i")?, tk[1].parse().map_err(|_| "j")?);
        let v: f64 = tk[2].parse().map_err(|_| "v")?;
        ensure!(i < m && j < n && listed[i][j] && !seen[i][j], "vismatrix entry {} {} wrong or repeated", i, j);
        seen[i][j] = true;
        let r = if complex { f64::hypot(dense[i][j].0, dense[i][j].1) } else { dense[i][j].0 };
        ensure!(rel(v, r, 1e-14), "vismatrix value {} instead of {}", v, r);
    }
    ensure!(seen == listed, "vismatrix entries missing");
    t.state(&(complex, sym as usize, m, n, text));
    Ok(())
}

fn round_trip(run: &mut Run) {
    let mut work = Vec::new();
    for complex in [false, true] {
        for sym in SYMS {
            for m in 1..=3 {
                for n in 1..=3 {
                    if sym != Sym::No && m != n {
                        continue;
                    }
                    // free positions
                    let mut pos = Vec::new();
                    for i in 0..m {
                        for j in 0..n {
                            if sym == Sym::No || (sym == Sym::YesUpper && j >= i) || (sym != Sym::YesUpper && j <= i) {
                                pos.push((i, j));
                            }
                        }
                    }
                    // number of choices per position: absent plus values
                    let cap = run.pick(300, 5000);
                    let mut base = 1 + VALUES.len();
                    while base > 2 && pow(base, pos.len()) > cap {
                        base -= 1;
                    }
                    for first in 0..base {
                        work.push((complex, sym, m, n, pos.clone(), base, first));
                    }
                }
            }
        }
    }
    run.section("round trip", work.len(), |ctx, w| {
        let (complex, sym, m, n, pos, base, first) = work[w].clone();
        let path = PathBuf::from(format!("{}/d{}/sub/round.mtx", scratch(), w));
        for idx in 0..pow(base, pos.len() - 1) {
            let mut d = digits(idx, base, pos.len() - 1);
            d.insert(0, first);
            for rot in [0, 3] {
                for tol in [0.0, 1e-3, 2.0, -1.0] {
                    ctx.case(format!("{} {:?} {}x{} choice={:?} rot={} tol={}", if complex { "complex" } else { "real" }, sym, m, n, d, rot, tol), |t| {
                        let entries: Vec<_> = d.iter().enumerate().filter(|(_, c)| **c > 0).map(|(k, c)| (pos[k].0, pos[k].1, VALUES[(*c - 1 + rot) % VALUES.len()])).collect();
                        one_round(t, &path, complex, sym, m, n, &entries, tol)
                    });
                }
            }
        }
        let _ = fs::remove_dir_all(format!("{}/d{}", scratch(), w));
    });
}

/// Larger matrices: indices with several digits, full and empty rows and columns, bands and strides
fn larger(run: &mut Run) {
    let sizes: [(usize, usize); 12] = [(9, 11), (11, 9), (10, 10), (12, 12), (1, 120), (120, 1), (33, 32), (64, 64), (99, 99), (100, 100), (101, 101), (130, 128)];
    run.section("larger", sizes.len() * 2, |ctx, w| {
        let ((m, n), complex) = (sizes[w / 2], w % 2 == 1);
        let path = PathBuf::from(format!("{}/l{}/larger.mtx", scratch(), w));
        for sym in SYMS {
            if sym != Sym::No && m != n {
                continue;
            }
            for pat in 0..7 {
                for tol in [0.0, 1e-3] {
                    ctx.case(format!("{} {:?} {}x{} pattern={} tol={}", if complex { "complex" } else { "real" }, sym, m, n, pat, tol), |t| {
                        let mut entries = Vec::new();
                        for i in 0..m {
                            for j in 0..n {
                                let stored = sym == Sym::No || (sym == Sym::YesUpper && j >= i) || (sym != Sym::YesUpper && j <= i);
                                let chosen = match pat {
                                    0 => true,
                                    1 => i == j,
                                    2 => i.abs_diff(j) <= 2,
                                    3 => (i * 7 + j * 3) % 5 == 0,
                                    4 => i + 1 == m || j + 1 == n,
                                    5 => (i + j) % 2 == 0 && i % 3 != 1,
                                    _ => i == 0 || j == 0,
                                };
                                if stored && chosen {
                                    entries.push((i, j, VALUES[(i * 5 + j * 2 + pat) % VALUES.len()]));
                                }
                            }
                        }
                        one_round(t, &path, complex, sym, m, n, &entries, tol)
                    });
                }
            }
        }
        let _ = fs::remove_dir_all(format!("{}/l{}", scratch(), w));
    });
}

/// Files that cannot be written or read; overwriting
fn files(run: &mut Run) {
    run.section("files", 2, |ctx, w| {
        let dir = format!("{}/files{}", scratch(), w);
        let write = |path: &str, n: usize| -> Result<(), &'static str> {
            if w == 0 {
                let mut c = CooMatrix::new(n, n, n, Sym::No)?;
                for i in 0..n {
                    c.put(i, i, 1.5)?;
                }
                CscMatrix::from_coo(&c)?.write_matrix_market(path, false, 0.0)
            } else {
                let mut c = ComplexCooMatrix::new(n, n, n, Sym::No)?;
                for i in 0..n {
                    c.put(i, i, Complex64::new(1.5, 0.5))?;
                }
                ComplexCscMatrix::from_coo(&c)?.write_matrix_market(path, false, 0.0)
            }
        };
        ctx.case(format!("files {}", w), |t| {
            let file = format!("{}/a.mtx", dir);
            for n in [5, 1, 9, 2] {
                t.op();
                write(&file, n)?;
                let p = actual(&PathBuf::from(&file), MMsym::LeaveAsLower)??;
                ensure!(p.dense.len() == n && p.nnz == n, "overwritten file");
            }
            // parent is a file; target is a directory
            let bad = guarded(|| write(&format!("{}/x.mtx", file), 2))?;
            ensure!(bad.is_err(), "written below a file");
            let bad = guarded(|| write(&dir, 2))?;
            ensure!(bad.is_err(), "written over a directory");
            ensure!(actual(&PathBuf::from(&file), MMsym::LeaveAsLower)?.is_ok(), "file spoiled");
            for p in [format!("{}/missing.mtx", dir), dir.clone(), format!("{}/x", file)] {
                ensure!(actual(&PathBuf::from(&p), MMsym::LeaveAsLower)?.is_err(), "{} read", p);
            }
            t.ops(5);
            t.state(&w);
            Ok(())
        });
        let _ = fs::remove_dir_all(&dir);
    });
}

/// Hermitian files; entries of the lower triangle stand for both triangles
fn hermitian(run: &mut Run) {
    run.section("hermitian", 2, |ctx, w| {
        let path = PathBuf::from(format!("{}/herm{}.mtx", scratch(), w));
        let text = [
            "%%MatrixMarket matrix coordinate complex Hermitian\n2 2 2\n1 1 4 0\n2 2 5 0\n",
            "%%MatrixMarket matrix coordinate complex Hermitian\n2 2 3\n1 1 4 0\n2 1 1 -2\n2 2 5 0\n",
        ][w];
        let name = ["diagonal", "lower triangle only"][w];
        for h in HANDLING {
            ctx.case(format!("{} {:?}", name, h), |t| {
                t.op();
                fs::write(&path, text).map_err(|e| e.to_string())?;
                let off = if w == 1 { ((1.0, 2.0), (1.0, -2.0)) } else { ((0.0, 0.0), (0.0, 0.0)) };
                let expect = vec![vec![(4.0, 0.0), off.0], vec![off.1, (5.0, 0.0)]];
                if let Ok(p) = actual(&path, h)? {
                    ensure!(p.complex && same(&p.dense, &expect), "read {:?} instead of {:?}", p.dense, expect);
                }
                t.state(&(w, h as usize));
                Ok(())
            });
        }
        let _ = fs::remove_file(&path);
    });
}

pub fn explore(run: &mut Run) {
    run.level(
        "exploration",
        "all small matrices and larger structured ones written and read back with all storages, tolerances and handlings; all truncations, single-byte, single-token and line-level corruptions of seven files, and all texts assembled from ten lines up to a length, compared with an independent reader",
    );
    run.assume("trailing tokens on a line may be ignored or refused; counts small enough to be allocated");
    round_trip(run);
    larger(run);
    files(run);
    corruptions(run);
    assembled(run);
    hermitian(run);
}
