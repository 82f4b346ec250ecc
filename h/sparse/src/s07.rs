//! S07: the command that solves a system given by a file

use mc::*;
use num_complex::Complex64;
use serde_json::Value;
use std::path::PathBuf;
use std::process::Command;

type Triple = (usize, usize, Complex64);

fn c(re: f64, im: f64) -> Complex64 {
    Complex64::new(re, im)
}

/// What the command did
struct Done {
    code: Option<i32>,
    text: String,
    errors: String,
}

fn command(args: &[String]) -> Result<Done, String> {
    let tool = std::env::var("VERIF_TOOL").map_err(|_| "VERIF_TOOL is not set".to_string())?;
    let o = Command::new(tool).args(args).output().map_err(|e| e.to_string())?;
    Ok(Done {
        code: o.status.code(),
        text: String::from_utf8_lossy(&o.stdout).to_string(),
        errors: String::from_utf8_lossy(&o.stderr).to_string(),
    })
}

/// A matrix and how it is written
#[derive(Clone)]
struct Input {
    m: usize,
    n: usize,
    complex: bool,
    symmetric: bool,
    entries: Vec<Triple>,
}

impl Input {
    fn text(&self) -> String {
        let mut s = format!(
            "%%MatrixMarket matrix coordinate {} {}\n% a comment\n{} {} {}\n",
            if self.complex { "complex" } else { "real" },
            if self.symmetric { "symmetric" } else { "general" },
            self.m,
            self.n,
            self.entries.len()
        );
        for (i, j, v) in &self.entries {
            if self.complex {
                s += &format!("{} {} {:?} {:?}\n", i + 1, j + 1, v.re, v.im);
            } else {
                s += &format!("{} {} {:?}\n", i + 1, j + 1, v.re);
            }
        }
        s
    }
    fn dense(&self) -> Vec<Vec<Complex64>> {
        let mut a = vec![vec![c(0.0, 0.0); self.n]; self.m];
        for &(i, j, v) in &self.entries {
            a[i][j] += v;
            if self.symmetric && i != j {
                a[j][i] += v;
            }
        }
        a
    }
    /// Number of entries of the full matrix
    fn count(&self) -> usize {
        self.entries.iter().map(|(i, j, _)| if self.symmetric && i != j { 2 } else { 1 }).sum()
    }
}

/// Determinant by elimination with pivoting, and whether the pattern alone makes the matrix singular
fn det(a: &[Vec<Complex64>]) -> (Complex64, bool) {
    let n = a.len();
    fn matching(a: &[Vec<Complex64>], i: usize, used: usize) -> bool {
        i == a.len() || (0..a.len()).any(|j| used >> j & 1 == 0 && a[i][j].norm() > 0.0 && matching(a, i + 1, used | 1 << j))
    }
    let structural = n <= 4 && !matching(a, 0, 0);
    let mut b = a.to_vec();
    let mut d = c(1.0, 0.0);
    for k in 0..n {
        let p = (k..n).max_by(|x, y| b[*x][k].norm().partial_cmp(&b[*y][k].norm()).unwrap()).unwrap();
        if b[p][k].norm() == 0.0 {
            return (c(0.0, 0.0), structural);
        }
        if p != k {
            b.swap(p, k);
            d = -d;
        }
        d *= b[k][k];
        for i in k + 1..n {
            let f = b[i][k] / b[k][k];
            for j in k..n {
                let v = b[k][j];
                b[i][j] -= f * v;
            }
        }
    }
    (d, structural)
}

fn number(v: &Value, path: &[&str]) -> Result<f64, String> {
    let mut v = v;
    for p in path {
        v = &v[*p];
    }
    v.as_f64().ok_or(format!("{path:?} is {v}"))
}

fn text<'a>(v: &'a Value, path: &[&str]) -> &'a str {
    let mut v = v;
    for p in path {
        v = &v[*p];
    }
    v.as_str().unwrap_or("nothing")
}

fn near(a: f64, b: f64, tol: f64) -> bool {
    (a - b).abs() <= tol * (1.0 + b.abs())
}

/// Compares the report with the matrix
fn judge(v: &Value, name: &str, a: &Input, determinant: Option<Complex64>, runs: usize) -> Outcome {
    ensure!(text(v, &["matrix", "name"]) == name, "name {} instead of {name}", v["matrix"]["name"]);
    for (key, want) in [("nrow", a.m), ("ncol", a.n), ("nnz", a.count()), ("nnz_actual", a.count())] {
        ensure!(number(v, &["matrix", key])? == want as f64, "{key} is {} instead of {want}", v["matrix"][key]);
    }
    ensure!(v["matrix"]["complex"].as_bool() == Some(a.complex), "complex is {}", v["matrix"]["complex"]);
    let sym = if a.symmetric { "YesFull" } else { "No" };
    ensure!(text(v, &["matrix", "symmetric"]) == sym, "symmetric is {}", v["matrix"]["symmetric"]);
    ensure!(v["main"]["out_of_memory"].as_bool() == Some(false) && text(v, &["main", "solver"]).eq_ignore_ascii_case("umfpack"), "main part: {}", v["main"]);
    // the solution
    let largest = a.dense().iter().flatten().fold(0.0, |m, x| f64::max(m, x.norm()));
    let side = if a.complex { 2f64.sqrt() } else { 1.0 };
    ensure!(near(number(v, &["verify", "max_abs_a"])?, largest, 1e-13), "largest entry {} instead of {largest}", v["verify"]["max_abs_a"]);
    ensure!(near(number(v, &["verify", "max_abs_ax"])?, side, 1e-9), "largest product {} instead of {side}", v["verify"]["max_abs_ax"]);
    let diff = number(v, &["verify", "max_abs_diff"])?;
    ensure!(diff <= 1e-9, "difference {diff}");
    ensure!(near(number(v, &["verify", "relative_error"])?, diff / (largest + 1.0), 1e-13), "relative error {}", v["verify"]["relative_error"]);
    let rcond = number(v, &["output", "umfpack_rcond_estimate"])?;
    ensure!(rcond > 0.0 && rcond <= 1.0, "condition {rcond}");
    // the determinant
    let p = 10f64.powf(number(v, &["determinant", "exponent"])?);
    let got = c(number(v, &["determinant", "mantissa_real"])? * p, number(v, &["determinant", "mantissa_imag"])? * p);
    if let Some(want) = determinant {
        ensure!(number(v, &["determinant", "base"])? == 10.0, "base of the determinant");
        ensure!((got - want).norm() <= 1e-9 * want.norm(), "determinant {got} instead of {want}");
    } else {
        ensure!(got == c(0.0, 0.0), "determinant {got} although not requested");
    }
    // the timings
    let nanos = &v["time_nanoseconds"];
    let list = |key: &str| -> Result<Vec<f64>, String> { nanos[key].as_array().ok_or(format!("{key} is no array"))?.iter().map(|x| x.as_f64().ok_or(format!("{key} has {x}"))).collect() };
    let (i, f, s, t) = (list("initialize_array")?, list("factorize_array")?, list("solve_array")?, list("total_ifs_array")?);
    ensure!(i.len() == runs && f.len() == runs && s.len() == runs && t.len() == runs, "timings of {} runs instead of {runs}", t.len());
    for k in 0..runs {
        ensure!(t[k] == i[k] + f[k] + s[k], "total of run {k}");
        ensure!(f[k] > 0.0 && s[k] > 0.0, "no time in run {k}");
    }
    for (key, all) in [("initialize", &i), ("factorize", &f), ("solve", &s), ("total_ifs", &t)] {
        let mean = all.iter().sum::<f64>() / runs as f64;
        ensure!((number(nanos, &[key])? - mean).abs() <= 1.0, "{key} is not the mean");
    }
    Ok(())
}

/// Writes the file, runs the command and compares
fn check(a: &Input, name: &str, options: &[&str], determinant: bool, runs: usize, t: &mut Trace) -> Outcome {
    let path = PathBuf::from(scratch()).join(format!("{name}.mtx"));
    std::fs::write(&path, a.text()).map_err(|e| e.to_string())?;
    let mut args: Vec<String> = vec![path.to_str().unwrap().to_string()];
    args.extend(options.iter().map(|s| s.to_string()));
    if determinant {
        args.push("-d".to_string());
    }
    if runs > 1 {
        args.extend(["-r".to_string(), runs.to_string()]);
    }
    let done = command(&args);
    let _ = std::fs::remove_file(&path);
    let done = done?;
    t.op();
    ensure!(done.code == Some(0) || done.code == Some(1), "exit code {:?}: {}", done.code, done.errors);
    if a.m != a.n {
        ensure!(done.code == Some(1) && done.text.is_empty(), "a matrix that is not square: exit code {:?}", done.code);
        return Ok(());
    }
    let (d, structural) = det(&a.dense());
    if structural || (d.norm() == 0.0 && a.n <= 2 && !a.complex) {
        ensure!(done.code == Some(1) && done.text.is_empty(), "a singular matrix: exit code {:?}", done.code);
        ensure!(!done.errors.is_empty(), "no message");
        return Ok(());
    }
    if d.norm() < 1e-10 {
        t.trivial(); // singular up to rounding
        return Ok(());
    }
    ensure!(done.code == Some(0), "exit code {:?}: {}", done.code, done.errors);
    let v: Value = serde_json::from_str(&done.text).map_err(|e| format!("no JSON: {e}"))?;
    t.state(&(v["determinant"].to_string(), v["verify"].to_string(), v["requests"].to_string()));
    judge(&v, name, a, if determinant { Some(d) } else { None }, runs)
}

/// Every matrix with the given positions and values
fn systems(run: &mut Run) {
    let real = [c(1.0, 0.0), c(-2.0, 0.0), c(0.5, 0.0)];
    let complex = [c(1.0, 0.0), c(0.0, 1.0), c(-2.0, 0.5)];
    // dimension, symmetric, complex
    let mut items = vec![];
    for (n, symmetric) in [(1, false), (1, true), (2, false), (2, true), (3, true)] {
        for z in [false, true] {
            let places: Vec<(usize, usize)> = (0..n).flat_map(|i| (0..n).map(move |j| (i, j))).filter(|(i, j)| !symmetric || i >= j).collect();
            let base = if places.len() > 4 { run.pick(3, 4) } else { 4 };
            for code in 0..pow(base, places.len()) {
                let d = digits(code, base, places.len());
                let entries: Vec<Triple> = places.iter().zip(&d).filter(|(_, d)| **d > 0).map(|((i, j), d)| (*i, *j, if z { complex[d - 1] } else { real[d - 1] })).collect();
                if !entries.is_empty() {
                    items.push(Input { m: n, n, complex: z, symmetric, entries });
                }
            }
        }
    }
    // all patterns of dimension three with numbers of their own
    let values = [2.0, 3.0, 5.0, 7.0, 11.0, 13.0, 17.0, 19.0, 23.0];
    for code in 1..512_usize {
        let entries = (0..9).filter(|k| code >> k & 1 > 0).map(|k| (k / 3, k % 3, c(values[k], 0.0))).collect();
        items.push(Input { m: 3, n: 3, complex: false, symmetric: false, entries });
    }
    run.section("matrices", items.len(), |ctx, w| {
        let a = &items[w];
        ctx.case(format!("{w}: {:?}", a.text()), |t| check(a, &format!("matrix {w}.x"), &[], true, 1, t));
    });
    // shapes
    run.section("shapes", 50, |ctx, w| {
        let (m, n, z) = (w / 2 % 5 + 1, w / 10 + 1, w % 2 > 0);
        let entries = (0..m).flat_map(|i| (0..n).map(move |j| (i, j, c(if i == j { 7.0 } else { 1.0 / (1 + i + 2 * j) as f64 }, if z { 0.5 } else { 0.0 })))).collect();
        let a = Input { m, n, complex: z, symmetric: false, entries };
        ctx.case(format!("{m}x{n} complex={z}"), |t| check(&a, &format!("shape-{w}"), &[], true, 1, t));
    });
    // sizes
    let most = run.pick(70, 200);
    run.section("sizes", most * 4, |ctx, w| {
        let (n, z, symmetric) = (w / 4 + 1, w % 2 > 0, w / 2 % 2 > 0);
        let mut entries = vec![];
        for i in 0..n {
            entries.push((i, i, c(4.0 + (i % 3) as f64, if z { 0.25 } else { 0.0 })));
            if i > 0 {
                entries.push((i, i - 1, c(-1.0, if z { 1.0 } else { 0.0 })));
                if !symmetric {
                    entries.push((i - 1, i, c(0.5, 0.0)));
                }
            }
        }
        if n > 2 {
            entries.push((n - 1, 0, c(2.0, 0.0)));
        }
        let a = Input { m: n, n, complex: z, symmetric, entries };
        ctx.case(format!("n={n} complex={z} symmetric={symmetric}"), |t| check(&a, &format!("size_{w}"), &[], true, 1, t));
    });
}

fn example(kind: usize) -> Input {
    let z = kind == 2;
    let entries = if kind == 1 {
        vec![(0, 0, c(4.0, 0.0)), (1, 0, c(1.0, 0.0)), (1, 1, c(5.0, 0.0)), (2, 1, c(-2.0, 0.0)), (2, 2, c(6.0, 0.0))]
    } else {
        let i = if z { 1.0 } else { 0.0 };
        vec![(0, 0, c(4.0, i)), (0, 2, c(1.0, -i)), (1, 1, c(5.0, 0.0)), (1, 0, c(3.0, i)), (2, 1, c(-2.0, 0.0)), (2, 2, c(6.0, -i))]
    };
    Input { m: 3, n: 3, complex: z, symmetric: kind == 1, entries }
}

/// Every combination of options leaves the answer
fn options(run: &mut Run) {
    let orderings = ["amd", "Amf", "AUTO", "best", "Cholmod", "colamd", "metis", "No", "pord", "qamd", "scotch", "something"];
    let scalings = ["auto", "Column", "diagonal", "MAX", "no", "RowCol", "rowcoliter", "rowcolrig", "sum", "something"];
    let n = orderings.len() * scalings.len();
    let all = run.thorough();
    run.section("options", n * 3, |ctx, w| {
        let (kind, ordering, scaling) = (w / n, orderings[w % n / scalings.len()], scalings[w % scalings.len()]);
        for flags in 0..16 {
            for runs in if all { vec![1, 2, 3] } else { vec![1 + (flags + w) % 3] } {
                ctx.case(format!("kind={kind} -o {ordering} -s {scaling} flags={flags} -r {runs}"), |t| {
                    let mut o = vec!["-o", ordering, "-s", scaling];
                    if flags & 1 > 0 {
                        o.push("-u");
                    }
                    if flags & 2 > 0 {
                        o.push("-p");
                    }
                    if flags & 4 > 0 {
                        o.extend(["-g", "UMFpack", "--matching-gen", "maxdiagsum", "-m", "3"]);
                    }
                    check(&example(kind), &format!("option{w}-{flags}-{runs}"), &o, flags & 8 > 0, runs, t)
                });
            }
        }
    });
    run.section("requests", orderings.len() * scalings.len(), |ctx, w| {
        let (ordering, scaling) = (orderings[w / scalings.len()], scalings[w % scalings.len()]);
        ctx.case(format!("-o {ordering} -s {scaling}"), |t| {
            t.op();
            let path = PathBuf::from(scratch()).join(format!("request{w}.mtx"));
            std::fs::write(&path, example(0).text()).map_err(|e| e.to_string())?;
            let args: Vec<String> = [path.to_str().unwrap(), "-o", ordering, "-s", scaling, "-p", "-m", "5", "-h", "0.25", "-n", "1"].iter().map(|s| s.to_string()).collect();
            let done = command(&args);
            let _ = std::fs::remove_file(&path);
            let done = done?;
            ensure!(done.code == Some(0), "exit code {:?}: {}", done.code, done.errors);
            let v: Value = serde_json::from_str(&done.text).map_err(|e| format!("no JSON: {e}"))?;
            let want = if ordering == "something" { "auto" } else { ordering };
            ensure!(text(&v, &["requests", "ordering"]).eq_ignore_ascii_case(want), "ordering {}", v["requests"]["ordering"]);
            let want = if scaling == "something" { "auto" } else { scaling };
            ensure!(text(&v, &["requests", "scaling"]).eq_ignore_ascii_case(want), "scaling {}", v["requests"]["scaling"]);
            ensure!(v["requests"]["positive_definite"].as_bool() == Some(true) && number(&v, &["requests", "mumps_num_threads"])? == 5.0 && number(&v, &["requests", "hybrid_memory_factor"])? == 0.25, "requests {}", v["requests"]);
            ensure!(number(&v, &["output", "openmp_num_threads"])? == 1.0, "threads {}", v["output"]["openmp_num_threads"]);
            Ok(())
        });
    });
}

/// Silence, talk, refusals
fn manners(run: &mut Run) {
    run.section("manners", 3, |ctx, kind| {
        let dir = PathBuf::from(scratch());
        let file = |name: &str, text: &str| -> Result<String, String> {
            let path: PathBuf = dir.join(format!("manners{kind}-{name}.mtx"));
            std::fs::write(&path, text).map_err(|e| e.to_string())?;
            Ok(path.to_str().unwrap().to_string())
        };
        let call = |list: &[&str]| command(&list.iter().map(|s| s.to_string()).collect::<Vec<_>>());
        ctx.case(format!("kind={kind} silent"), |t| {
            t.op();
            let f = file("silent", &example(kind).text())?;
            let done = call(&[&f, "--hide-json"])?;
            ensure!(done.code == Some(0) && done.text.is_empty(), "exit code {:?}, output {:?}", done.code, done.text);
            Ok(())
        });
        ctx.case(format!("kind={kind} verbose"), |t| {
            t.op();
            let f = file("verbose", &example(kind).text())?;
            let done = call(&[&f, "-v", "-d"])?;
            ensure!(done.code == Some(0), "exit code {:?}", done.code);
            // the report comes after or between the messages of the solver
            let found = done.text.match_indices("{\n").any(|(i, _)| {
                let mut all = serde_json::Deserializer::from_str(&done.text[i..]).into_iter::<Value>();
                matches!(all.next(), Some(Ok(v)) if judge(&v, &format!("manners{kind}-verbose"), &example(kind), Some(det(&example(kind).dense()).0), 1).is_ok())
            });
            ensure!(found, "no right report within the messages");
            Ok(())
        });
        for (factor, ok) in [("0.01", true), ("0.99", true), ("0.5", true), ("0.0099", false), ("0.9901", false), ("-1", false), ("0", false), ("1", false), ("x", false)] {
            ctx.case(format!("kind={kind} memory factor {factor}"), |t| {
                t.op();
                let f = file(&format!("factor{factor}"), &example(kind).text())?;
                let done = call(&[&f, &format!("--hybrid-memory-factor={factor}")])?;
                ensure!((done.code == Some(0)) == ok && done.code != Some(101), "exit code {:?}", done.code);
                ensure!(done.text.is_empty() != ok, "output {:?}", done.text);
                Ok(())
            });
        }
        let whole = example(kind).text();
        let mut broken: Vec<(String, String)> = vec![("empty".to_string(), String::new()), ("no header".to_string(), whole.lines().skip(1).map(|l| format!("{l}\n")).collect())];
        let lines = whole.lines().count();
        for cut in 1..lines {
            broken.push((format!("first {cut} lines"), whole.lines().take(cut).map(|l| format!("{l}\n")).collect()));
        }
        for k in 3..lines {
            broken.push((format!("line {k} outside"), whole.lines().enumerate().map(|(i, l)| if i == k { format!("9{l}\n") } else { format!("{l}\n") }).collect()));
        }
        for (k, (what, text)) in broken.iter().enumerate() {
            ctx.case(format!("kind={kind} {what}"), |t| {
                t.op();
                let f = file(&format!("broken{k}"), text)?;
                let done = call(&[&f])?;
                ensure!(done.code == Some(1) && done.text.is_empty() && !done.errors.is_empty(), "exit code {:?}, output {:?}", done.code, done.text);
                Ok(())
            });
        }
        ctx.case(format!("kind={kind} missing file"), |t| {
            t.op();
            let done = call(&[dir.join("is not there.mtx").to_str().unwrap()])?;
            ensure!(done.code == Some(1) && done.text.is_empty(), "exit code {:?}, output {:?}", done.code, done.text);
            Ok(())
        });
    });
}

/// The file for the visualisation lists every entry of the full matrix once
fn pictures(run: &mut Run) {
    run.section("pictures", 1, |ctx, _| {
        for kind in 0..3 {
            ctx.case(format!("kind={kind}"), |t| {
                t.op();
                let a = example(kind);
                let out = PathBuf::from(format!("/tmp/russell_sparse/solve_matrix_market_{}.smat", if a.complex { "complex" } else { "real" }));
                let before = std::fs::read(&out).ok();
                let _ = std::fs::remove_file(&out);
                let path = PathBuf::from(scratch()).join(format!("picture{kind}.mtx"));
                std::fs::write(&path, a.text()).map_err(|e| e.to_string())?;
                let done = command(&[path.to_str().unwrap().to_string(), "--vismatrix".to_string()]);
                let got = std::fs::read_to_string(&out);
                match before {
                    Some(b) => std::fs::write(&out, b).map_err(|e| e.to_string())?,
                    None => {
                        let _ = std::fs::remove_file(&out);
                    }
                }
                let done = done?;
                ensure!(done.code == Some(0), "exit code {:?}: {}", done.code, done.errors);
                let got = got.map_err(|e| format!("no file: {e}"))?;
                let mut lines = got.lines().filter(|l| !l.trim_start().starts_with('%'));
                let head: Vec<usize> = lines.next().unwrap_or("").split_whitespace().filter_map(|w| w.parse().ok()).collect();
                ensure!(head.len() >= 3 && head[0] == 3 && head[1] == 3 && head[2] == a.count(), "header {head:?}");
                let mut m = vec![vec![0.0; 3]; 3]; // (moduli of complex numbers)
                let mut n = 0;
                for l in lines.filter(|l| !l.trim().is_empty()) {
                    let w: Vec<f64> = l.split_whitespace().filter_map(|w| w.parse().ok()).collect();
                    ensure!(w.len() == 3, "line {l:?}");
                    let (i, j) = (w[0] as usize, w[1] as usize);
                    ensure!(i < 3 && j < 3, "line {l:?}");
                    m[i][j] += w[2];
                    n += 1;
                }
                ensure!(n == a.count() && (0..9).all(|k| near(m[k / 3][k % 3], if a.complex { a.dense()[k / 3][k % 3].norm() } else { a.dense()[k / 3][k % 3].re }, 1e-15)), "{n} entries, matrix {m:?}");
                Ok(())
            });
        }
    });
}

pub fn explore(run: &mut Run) {
    run.level("exploration", "all small matrices, patterns and shapes, sizes up to a limit, all option combinations: the command started on a file against the exact determinant, counts and residuals");
    run.assume("UMFPACK is the only solver in this build; singular matrices whose determinant vanishes only up to rounding are not judged");
    systems(run);
    options(run);
    manners(run);
    pictures(run);
}
