//! R02: histograms, statistics and order statistics

use mc::*;
use russell_stat::*;

/// All vectors of the given length with entries from a list
fn pick<T: Copy>(vals: &[T], index: usize, len: usize) -> Vec<T> {
    digits(index, vals.len(), len).iter().map(|i| vals[*i]).collect()
}

/// The display of a histogram with the given bins
fn display(text: &str, stations: &[f64], counts: &[usize], bar: char, max_len: usize, tol: f64) -> Outcome {
    let most = *counts.iter().max().unwrap();
    if most == 0 {
        ensure!(text == "zero data\n", "display of an empty histogram: {text:?}");
        return Ok(());
    }
    let lines: Vec<&str> = text.lines().collect();
    ensure!(lines.len() == counts.len() + 1, "{} lines", lines.len());
    for i in 0..counts.len() {
        let l = lines[i];
        let (range, rest) = l.split_once('|').ok_or("no separator")?;
        let inner = range.trim().strip_prefix('[').and_then(|s| s.strip_suffix(')')).ok_or("no range")?;
        let (a, b) = inner.split_once(',').ok_or("no comma")?;
        let a: f64 = a.trim().parse().map_err(|_| format!("left end of {l}"))?;
        let b: f64 = b.trim().parse().map_err(|_| format!("right end of {l}"))?;
        ensure!((a - stations[i]).abs() <= tol && (b - stations[i + 1]).abs() <= tol, "range of line {l}");
        let rest = rest.trim();
        let (num, bars) = rest.split_once(' ').unwrap_or((rest, ""));
        let c: usize = num.trim().parse().map_err(|_| format!("count of {l}"))?;
        ensure!(c == counts[i], "count of line {l} should be {}", counts[i]);
        let nb = bars.trim().chars().count();
        ensure!(bars.trim().chars().all(|x| x == bar), "bar of line {l}");
        let want = max_len as f64 * c as f64 / most as f64;
        ensure!(nb as f64 <= want + 1e-9 && nb as f64 >= want - 1.0 - 1e-9, "bar of length {nb} instead of {want}");
    }
    let total: usize = counts.iter().sum();
    ensure!(lines[counts.len()].trim() == format!("sum = {total}"), "last line {}", lines[counts.len()]);
    Ok(())
}

fn bins(stations: &[f64], data: &[f64], counts: &mut [usize]) {
    for x in data {
        for i in 0..counts.len() {
            if *x >= stations[i] && *x < stations[i + 1] {
                counts[i] += 1;
            }
        }
    }
}

fn histograms(run: &mut Run) {
    // every value against every layout
    let sv = [-1.5, 0.0, 0.1, 1.0, 2.5, f64::INFINITY, f64::NEG_INFINITY];
    let mut xs = vec![f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -0.0, 100.0, -100.0, f64::MAX, f64::MIN];
    for s in &sv[..5] {
        xs.extend([*s, s.next_up(), s.next_down(), s + 0.25, s - 0.25]);
    }
    let lens: Vec<usize> = (0..=run.pick(5, 6)).collect();
    for len in lens {
        run.section(&format!("bins of {len} stations"), pow(sv.len(), len), |ctx, w| {
            let s = pick(&sv, w, len);
            ctx.case(format!("{s:?}"), |t| {
                t.op();
                t.state_f64(&s);
                let sorted = s.windows(2).all(|p| p[0] <= p[1]);
                let mut h = match Histogram::new(&s) {
                    Ok(h) => h,
                    Err(_) => {
                        ensure!(len < 2 || !sorted, "refused");
                        t.trivial();
                        return Ok(());
                    }
                };
                ensure!(len >= 2 && sorted, "accepted");
                ensure!(*h.get_counts() == vec![0; len - 1], "initial counts");
                for x in &xs {
                    t.ops(2);
                    let mut want = vec![0; len - 1];
                    bins(&s, &[*x], &mut want);
                    h.reset();
                    h.count(&[*x]);
                    ensure!(*h.get_counts() == want, "{x} is counted as {:?}", h.get_counts());
                }
                // all at once
                h.reset();
                h.count(&xs);
                let mut want = vec![0; len - 1];
                bins(&s, &xs, &mut want);
                ensure!(*h.get_counts() == want, "counts {:?} instead of {want:?}", h.get_counts());
                Ok(())
            });
        });
    }
    // many bins: every station and midpoint, counted once, twice and again after a reset, and displayed
    run.section("many stations", 130, |ctx, w| {
        let len = w + 2;
        ctx.case(format!("{len} stations"), |t| {
            let s: Vec<f64> = (0..len).map(|i| (i * i) as f64 - 50.0).collect();
            let si: Vec<i64> = s.iter().map(|x| *x as i64).collect();
            let mut xs = vec![s[0] - 1.0];
            for i in 0..len {
                for _ in 0..i % 3 + 1 {
                    xs.extend([s[i], s[i] + 0.5]);
                }
            }
            let mut h = Histogram::new(&s)?;
            let mut hi = Histogram::new(&si)?;
            h.set_bar_char('*').set_bar_max_len(40);
            for (k, rounds) in [1, 2, 1, 3].into_iter().enumerate() {
                let mut want = vec![0; len - 1];
                for _ in 0..rounds {
                    t.ops(xs.len());
                    h.count(&xs);
                    hi.count(&xs.iter().map(|x| x.floor() as i64).collect::<Vec<_>>());
                    bins(&s, &xs, &mut want);
                }
                t.state(&(len, k, &want));
                ensure!(*h.get_counts() == want, "counts {:?} instead of {want:?}", h.get_counts());
                ensure!(*hi.get_counts() == want, "integer counts {:?} instead of {want:?}", hi.get_counts());
                display(&format!("{h:.1}"), &s, &want, '*', 40, 1e-9)?;
                h.reset();
                hi.reset();
                ensure!(h.get_counts().iter().chain(hi.get_counts()).all(|c| *c == 0), "counts after reset");
            }
            Ok(())
        });
    });
    run.section("refused stations", 1, |ctx, _| {
        for s in [vec![f64::NAN, 1.0], vec![1.0, f64::NAN], vec![0.0, f64::NAN, 1.0], vec![f64::NAN]] {
            ctx.case(format!("{s:?}"), |t| {
                t.op();
                ensure!(Histogram::new(&s).is_err(), "accepted");
                t.state(&format!("{s:?}"));
                Ok(())
            });
        }
    });
    // histories on integers of several types
    let layouts: Vec<Vec<u8>> = vec![vec![0, 1], vec![1, 3], vec![0, 1, 2, 3, 4, 5], vec![0, 2, 5], vec![1, 1, 4], vec![0, 3, 3, 3, 7, 200]];
    let sets: Vec<Vec<u8>> = vec![vec![], vec![0], vec![1, 1, 3], vec![5, 4, 3, 2, 1, 0], vec![255, 199, 200, 7, 6]];
    let nops = sets.len() + 2;
    let depth = run.pick(5, 7);
    run.section("histories", layouts.len() * nops, |ctx, w| {
        let lay = &layouts[w / nops];
        let lf: Vec<f64> = lay.iter().map(|x| *x as f64).collect();
        for rest in 0..pow(nops, depth - 1) {
            let mut seq = vec![w % nops];
            seq.extend(digits(rest, nops, depth - 1));
            ctx.case(format!("{lay:?} {seq:?}"), |t| {
                let mut h8 = Histogram::<u8>::new(lay)?;
                let mut hi = Histogram::<i32>::new(&lay.iter().map(|x| *x as i32).collect::<Vec<_>>())?;
                let mut hf = Histogram::<f64>::new(&lf)?;
                let mut want = vec![0; lay.len() - 1];
                let (mut bar, mut len) = ('🟦', 30);
                for &o in &seq {
                    t.op();
                    if o == sets.len() {
                        h8.reset();
                        hi.reset();
                        hf.reset();
                        want.iter_mut().for_each(|c| *c = 0);
                    } else if o > sets.len() {
                        (bar, len) = ('*', 7);
                        h8.set_bar_char('*').set_bar_max_len(7);
                        hi.set_bar_char('*').set_bar_max_len(7);
                        hf.set_bar_char('*').set_bar_max_len(7);
                    } else {
                        let data = &sets[o];
                        h8.count(data);
                        hi.count(&data.iter().map(|x| *x as i32).collect::<Vec<_>>());
                        let df: Vec<f64> = data.iter().map(|x| *x as f64).collect();
                        hf.count(&df);
                        bins(&lf, &df, &mut want);
                    }
                    ensure!(*h8.get_counts() == want, "u8 counts {:?} instead of {want:?}", h8.get_counts());
                    ensure!(*hi.get_counts() == want, "i32 counts {:?} instead of {want:?}", hi.get_counts());
                    ensure!(*hf.get_counts() == want, "f64 counts {:?} instead of {want:?}", hf.get_counts());
                }
                display(&format!("{h8}"), &lf, &want, bar, len, 0.0)?;
                display(&format!("{hi}"), &lf, &want, bar, len, 0.0)?;
                display(&format!("{hf:.3}"), &lf, &want, bar, len, 0.0)?;
                hf.set_scientific_fmt_precision(4);
                display(&format!("{hf}"), &lf, &want, bar, len, 0.0)?;
                t.state(&(w / nops, want, bar));
                Ok(())
            });
        }
    });
}

fn close_to(a: f64, b: f64, scale: f64) -> bool {
    (a - b).abs() <= 1e-14 * scale
}

fn statistics(run: &mut Run) {
    let vals = [-3i32, -1, 0, 1, 2, 7];
    for (scale, off) in [(1.0, 0.0), (0.1, 0.1), (1e-3, 1e6), (1e8, 0.3)] {
        for len in 0..=run.pick(6, 8) {
            run.section(&format!("statistics x {scale} + {off} of {len}"), pow(vals.len(), len), |ctx, w| {
                let v = pick(&vals, w, len);
                ctx.case(format!("{v:?}"), |t| {
                    t.op();
                    let x: Vec<f64> = v.iter().map(|a| *a as f64 * scale + off).collect();
                    t.state_f64(&x);
                    let s = Statistics::new(&x);
                    let si = Statistics::new(&v);
                    let s32 = Statistics::new(&v.iter().map(|a| *a as f32).collect::<Vec<_>>());
                    if len == 0 {
                        ensure!(s.min == 0.0 && s.max == 0.0 && s.mean == 0.0 && s.std_dev == 0.0, "statistics of nothing");
                        return Ok(());
                    }
                    let lo = x.iter().fold(f64::INFINITY, |a, b| a.min(*b));
                    let hi = x.iter().fold(f64::NEG_INFINITY, |a, b| a.max(*b));
                    ensure!(s.min == lo && s.max == hi, "limits {} and {}", s.min, s.max);
                    // exact integer sums
                    let n = len as i64;
                    let sum: i64 = v.iter().map(|a| *a as i64).sum();
                    let sq: i64 = v.iter().map(|a| (*a as i64) * (*a as i64)).sum();
                    let big = lo.abs().max(hi.abs()).max(1e-300);
                    let mean = sum as f64 / n as f64;
                    ensure!(close_to(s.mean, mean * scale + off, big), "mean {}", s.mean);
                    ensure!(s.mean >= lo - 1e-15 * big && s.mean <= hi + 1e-15 * big, "mean {} outside the data", s.mean);
                    let var = if n > 1 { (n * sq - sum * sum) as f64 / (n * (n - 1)) as f64 } else { 0.0 };
                    let sd = var.sqrt();
                    ensure!(s.std_dev >= 0.0, "standard deviation {}", s.std_dev);
                    ensure!((s.std_dev - sd * scale).abs() <= 1e-13 * sd * scale + 4e-16 * big, "standard deviation {} instead of {}", s.std_dev, sd * scale);
                    for (s, name) in [(si, "i32"), (s32, "f32")] {
                        ensure!(s.min == *v.iter().min().unwrap() as f64, "{name} minimum");
                        ensure!(s.max == *v.iter().max().unwrap() as f64, "{name} maximum");
                        ensure!(close_to(s.mean, mean, 10.0) && (s.std_dev - sd).abs() <= 1e-13, "{name} mean or deviation");
                        ensure!(
                            format!("{s}") == format!("min = {}\nmax = {}\nmean = {}\nstd_dev = {}\n", s.min, s.max, s.mean, s.std_dev),
                            "display"
                        );
                        ensure!(
                            format!("{s:.3}")
                                == format!("min = {:.3}\nmax = {:.3}\nmean = {:.3}\nstd_dev = {:.3}\n", s.min, s.max, s.mean, s.std_dev),
                            "display with precision"
                        );
                    }
                    Ok(())
                });
            });
        }
    }
    // constant data never has a deviation
    let n = run.pick(40, 400);
    run.section("constant data", n, |ctx, w| {
        let mut cs = vec![0.1, 0.3, 1.0 / 3.0, 1e-9, 123456.789, -0.7, 1e15 + 0.3, 2f64.sqrt()];
        cs.extend((1..100).map(|k| k as f64 * 0.1));
        cs.extend((2..100).map(|k| 1.0 / k as f64));
        cs.extend((2..100).map(|k| f64::sqrt(k as f64)));
        for c in cs {
            ctx.case(format!("{} x {c}", w + 1), |t| {
                t.op();
                t.state_f64(&[w as f64, c]);
                let s = Statistics::new(&vec![c; w + 1]);
                ensure!(s.min == c && s.max == c, "limits");
                ensure!(rel(s.mean, c, 1e-15 * (1 + w) as f64), "mean {}", s.mean);
                ensure!(s.std_dev >= 0.0 && s.std_dev <= 1e-15 * (1 + w) as f64 * c.abs(), "standard deviation {}", s.std_dev);
                Ok(())
            });
        }
    });
}

/// Quantile by definition, for q = num/den
fn quantile_ref(sorted: &[f64], num: usize, den: usize) -> f64 {
    let m = num * (sorted.len() - 1);
    let (i, r) = (m / den, m % den);
    if r == 0 {
        sorted[i]
    } else {
        sorted[i] + (sorted[i + 1] - sorted[i]) * r as f64 / den as f64
    }
}

fn order(run: &mut Run) {
    let vals = [-20i32, -2, 0, 1, 3, 40];
    for len in 1..=run.pick(7, 8) {
        run.section(&format!("order statistics of {len}"), pow(vals.len(), len), |ctx, w| {
            let v = pick(&vals, w, len);
            ctx.case(format!("{v:?}"), |t| {
                t.ops(8);
                t.state(&v);
                let f: Vec<f64> = v.iter().map(|x| *x as f64).collect();
                let mut s = f.clone();
                s.sort_by(|a, b| a.partial_cmp(b).unwrap());
                let si: Vec<i32> = s.iter().map(|x| *x as i32).collect();
                for (num, den) in [(0, 1), (1, 1), (1, 2), (1, 4), (3, 4), (1, 8), (5, 8), (15, 16), (1, 1024)] {
                    let q = num as f64 / den as f64;
                    let want = quantile_ref(&s, num, den);
                    let got = quantile(&s, q);
                    ensure!((got - want).abs() <= 1e-13, "quantile {q} is {got} instead of {want}");
                    ensure!(quantile(&si, q) == got, "quantile {q} of integers");
                }
                for q in [0.1, 0.3, 0.7, 0.9999999] {
                    let got = quantile(&s, q);
                    let p = q * (len - 1) as f64;
                    let want: f64 = (0..len).map(|i| s[i] * f64::max(0.0, 1.0 - (p - i as f64).abs())).sum();
                    ensure!((got - want).abs() <= 1e-12, "quantile {q} is {got} instead of {want}");
                }
                let want = (quantile_ref(&s, 1, 4), quantile_ref(&s, 1, 2), quantile_ref(&s, 3, 4));
                let (mut a, mut b) = (f.clone(), v.clone());
                ensure!(quartiles(&mut a) == want, "quartiles {:?} instead of {want:?}", quartiles(&mut a));
                ensure!(a == s, "quartiles sort the data");
                ensure!(quartiles(&mut b) == want && b == si, "quartiles of integers");
                let (mut a, mut b) = (f.clone(), v.clone());
                ensure!(inter_quartile_range(&mut a) == want.2 - want.0 && a == s, "inter-quartile range");
                ensure!(inter_quartile_range(&mut b) == want.2 - want.0 && b == si, "inter-quartile range of integers");
                // all results in integers times 8
                let (q1, q3) = ((want.0 * 8.0) as i64, (want.2 * 8.0) as i64);
                let (lo, hi) = (2 * q1 - 3 * (q3 - q1), 2 * q3 + 3 * (q3 - q1));
                let mut exp: Vec<(usize, i32)> = Vec::new();
                for (i, x) in v.iter().enumerate() {
                    let y = *x as i64 * 16;
                    if y < lo || y > hi {
                        exp.push((i, *x));
                    }
                }
                let mut got = outliers(&v);
                got.sort();
                ensure!(got == exp, "outliers {got:?} instead of {exp:?}");
                let mut got: Vec<(usize, i32)> = outliers(&f).iter().map(|x| (x.0, x.1 as i32)).collect();
                got.sort();
                ensure!(got == exp, "outliers of reals {got:?} instead of {exp:?}");
                Ok(())
            });
        });
    }
    // many values with few outliers
    run.section("long data sets", run.pick(60, 300), |ctx, w| {
        let n = w + 9;
        for at in 0..n {
            ctx.case(format!("{n} values, outlier at {at}"), |t| {
                t.op();
                t.state(&(n, at));
                let v: Vec<i64> = (0..n).map(|i| if i == at { 1_000_000 } else { ((i * 7) % 13) as i64 }).collect();
                let got = outliers(&v);
                ensure!(got == [(at, 1_000_000)], "outliers {got:?}");
                let mut s = v.clone();
                s.sort();
                let f: Vec<f64> = s.iter().map(|x| *x as f64).collect();
                let mut u: Vec<i64> = v.clone();
                let q = quartiles(&mut u);
                let want = (quantile_ref(&f, 1, 4), quantile_ref(&f, 1, 2), quantile_ref(&f, 3, 4));
                ensure!(q == want && u == s, "quartiles {q:?} instead of {want:?}");
                Ok(())
            });
        }
    });
    run.section("refusals", 1, |ctx, _| {
        ctx.case("empty", |t| {
            t.op();
            t.state(&0);
            let none: Vec<f64> = Vec::new();
            ensure!(guarded(|| quantile(&none, 0.5)).is_err(), "quantile of nothing");
            ensure!(guarded(|| quartiles(&mut none.clone())).is_err(), "quartiles of nothing");
            ensure!(guarded(|| inter_quartile_range(&mut none.clone())).is_err(), "range of nothing");
            ensure!(guarded(|| outliers(&none)).is_err(), "outliers of nothing");
            Ok(())
        });
        for q in [-1.0, -1e-300, 1.0f64.next_up(), 2.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY] {
            ctx.case(format!("q = {q}"), |t| {
                t.op();
                t.state_f64(&[q]);
                ensure!(guarded(|| quantile(&[1.0, 2.0], q)).is_err(), "accepted");
                Ok(())
            });
        }
    });
}

pub fn explore(run: &mut Run) {
    run.level(
        "model_checking",
        "all histogram layouts and values up to the bounds, all sequences of count, reset and display settings up to the depth, \
         all small data sets through every statistic against exact integer definitions",
    );
    histograms(run);
    statistics(run);
    order(run);
}
