//! Bounded exhaustive exploration of real code: bookkeeping shared by all harnesses.
//!
//! A harness enumerates *cases* (an input, a configuration, an operation sequence, a fault
//! point). Every case runs the real code and compares it with a reference model; the outcome
//! is `Ok` or a message. Cases are numbered by a printable key, so that a violation can be
//! replayed on its own. A panic, a crash or a hang of the code under test is a violation of
//! the case that was running.

use std::cell::RefCell;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

const MAX_VIOLATIONS: usize = 10;
const N_SLOT: usize = 64;
const SLOT_LEN: usize = 1024;

thread_local! {
    static PANIC_MSG: RefCell<String> = RefCell::new(String::new());
    static MUTE: RefCell<bool> = RefCell::new(false);
}

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

/// Stable hash used to count distinct states
pub fn hash_of<T: Hash>(t: &T) -> u64 {
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// Hash of a slice of floats (bitwise)
pub fn hash_f64(v: &[f64]) -> u64 {
    let b: Vec<u64> = v.iter().map(|x| x.to_bits()).collect();
    hash_of(&b)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

struct Known {
    pattern: String,
    what: String,
}

#[derive(Default)]
struct Acc {
    cases: u64,
    nontrivial: HashSet<u64>,
    states: HashSet<u64>,
    transitions: u64,
    samples: Vec<String>,
    sections: Vec<(String, u64, f64)>,
    violations: Vec<(String, String)>,
    known: Vec<(usize, String)>,
}

/// One exploration of one property
pub struct Run {
    pub prop: String,
    pub tier: Tier,
    level: String,
    rule: String,
    assumptions: Vec<String>,
    seed: i64,
    t0: Instant,
    acc: Mutex<Acc>,
    known: Vec<Known>,
    only: Option<String>,
    stop: AtomicBool,
    slots: usize, // address of the shared slots
    next_slot: AtomicUsize,
    running: Vec<(AtomicU64, Mutex<String>)>, // start time in ms (0 = idle), key
    limit_ms: AtomicU64,
}

/// Recorder handed to each worker
pub struct Ctx<'a> {
    run: &'a Run,
    section: String,
    tag: String,
    slot: usize,
    cases: u64,
    transitions: u64,
    states: HashSet<u64>,
    nontrivial: HashSet<u64>,
    samples: Vec<String>,
}

/// Recorder handed to each case
pub struct Trace<'a> {
    transitions: &'a mut u64,
    states: &'a mut HashSet<u64>,
    trivial: bool,
}

impl<'a> Trace<'a> {
    /// Records one call into the code under test (a transition)
    pub fn op(&mut self) {
        *self.transitions += 1;
    }
    pub fn ops(&mut self, n: usize) {
        *self.transitions += n as u64;
    }
    /// Records a state of the model (or the observable state of the object)
    pub fn state<T: Hash>(&mut self, t: &T) {
        self.states.insert(hash_of(t));
    }
    pub fn state_f64(&mut self, v: &[f64]) {
        self.states.insert(hash_f64(v));
    }
    /// Marks the case as trivial (for instance, refused by the precondition)
    pub fn trivial(&mut self) {
        self.trivial = true;
    }
}

pub type Outcome = Result<(), String>;

#[macro_export]
macro_rules! fail {
    ($($arg:tt)*) => { return Err(format!($($arg)*)) };
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => { if !($cond) { return Err(format!($($arg)*)); } };
}

/// Runs a closure and converts a panic to Err
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    MUTE.with(|m| *m.borrow_mut() = true);
    let res = catch_unwind(AssertUnwindSafe(f));
    MUTE.with(|m| *m.borrow_mut() = false);
    match res {
        Ok(r) => Ok(r),
        Err(_) => Err(PANIC_MSG.with(|m| m.borrow().clone())),
    }
}

/// |a - b| <= tol, false for NaN
pub fn near(a: f64, b: f64, tol: f64) -> bool {
    (a == b) || (a - b).abs() <= tol
}

/// |a - b| <= tol * max(1, |b|)
pub fn close(a: f64, b: f64, tol: f64) -> bool {
    (a == b) || (a - b).abs() <= tol * f64::max(1.0, b.abs())
}

/// |a - b| <= tol * |b|
pub fn rel(a: f64, b: f64, tol: f64) -> bool {
    (a == b) || (a - b).abs() <= tol * b.abs()
}

/// All vectors of length `len` with digits in 0..base, by index
pub fn digits(mut index: usize, base: usize, len: usize) -> Vec<usize> {
    let mut v = vec![0; len];
    for d in v.iter_mut() {
        *d = index % base;
        index /= base;
    }
    v
}

pub fn pow(base: usize, exp: usize) -> usize {
    base.pow(exp as u32)
}

/// All permutations of 0..n (lexicographic)
pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    fn rec(cur: &mut Vec<usize>, used: &mut Vec<bool>, n: usize, out: &mut Vec<Vec<usize>>) {
        if cur.len() == n {
            out.push(cur.clone());
            return;
        }
        for i in 0..n {
            if !used[i] {
                used[i] = true;
                cur.push(i);
                rec(cur, used, n, out);
                cur.pop();
                used[i] = false;
            }
        }
    }
    let mut out = Vec::new();
    rec(&mut Vec::new(), &mut vec![false; n], n, &mut out);
    out
}

/// Prints a line of the report
fn say(text: String) {
    let file = match std::env::var("VERIF_REPORT") {
        Ok(path) => std::fs::OpenOptions::new().append(true).open(path).ok(),
        Err(_) => None,
    };
    match file {
        Some(mut f) => {
            let _ = f.write_all(format!("{}\n", text).as_bytes());
        }
        None => println!("{}", text),
    }
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn root() -> String {
    std::env::var("VERIF_ROOT").unwrap_or("/verif".to_string())
}

fn write_replay(prop: &str, tier: Tier, case: &str, msg: &str, index: usize) -> String {
    let dir = format!("{}/replays", root());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}-{}.json", dir, prop, index);
    let text = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"case\": {},\n \"message\": {},\n \"replay_cmd\": {}\n}}\n",
        esc(prop),
        esc(if tier == Tier::Quick { "quick" } else { "thorough" }),
        esc(case),
        esc(msg),
        esc(&format!("VERIF_ONLY='{}' bash check.sh {} {}", case, prop, if tier == Tier::Quick { "quick" } else { "thorough" })),
    );
    let _ = std::fs::write(&path, text);
    path
}

/// Directory for files written by the code under test (created by the check, removed by check.sh)
pub fn scratch() -> String {
    let d = std::env::var("VERIF_SCRATCH").unwrap_or(format!("{}/scratch/x", root()));
    let _ = std::fs::create_dir_all(&d);
    d
}

/// Entry point: `table` maps a property id to its exploration
pub fn main_with(table: &[(&str, fn(&mut Run))]) {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 2 {
        eprintln!("usage: {} PROPERTY [quick|thorough]", args[0]);
        std::process::exit(2);
    }
    let prop = args[1].clone();
    let tier = match args.get(2).map(|s| s.as_str()) {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let f = match table.iter().find(|t| t.0 == prop) {
        Some(t) => t.1,
        None => {
            eprintln!("unknown property {}", prop);
            std::process::exit(2);
        }
    };
    // the exploration runs in a child process so that a crash is observed
    if std::env::var("VERIF_CHILD").is_err() {
        let slots_path = format!("{}/slots", scratch());
        std::fs::write(&slots_path, vec![0u8; N_SLOT * SLOT_LEN]).expect("cannot write slots file");
        let report_path = format!("{}/report", scratch());
        std::fs::write(&report_path, "").expect("cannot write report file");
        let status = std::process::Command::new(std::env::current_exe().unwrap())
            .args(&args[1..])
            .env("VERIF_CHILD", "1")
            .env("VERIF_SLOTS", &slots_path)
            .env("VERIF_REPORT", &report_path)
            .stdout(if std::env::var("VERIF_VERBOSE").is_ok() { std::process::Stdio::inherit() } else { std::process::Stdio::null() })
            .status()
            .expect("cannot run child");
        // the code under test may print anything; the report comes from a file of its own
        print!("{}", std::fs::read_to_string(&report_path).unwrap_or_default());
        let _ = std::io::stdout().flush();
        if let Some(code) = status.code() {
            std::process::exit(code);
        }
        use std::os::unix::process::ExitStatusExt;
        let sig = status.signal().unwrap_or(0);
        if [4, 6, 7, 8, 11].contains(&sig) {
            let data = std::fs::read(&slots_path).unwrap_or_default();
            let mut cases = Vec::new();
            for s in data.chunks(SLOT_LEN) {
                let n = s[0] as usize + 256 * s[1] as usize;
                if n > 0 && n + 2 <= s.len() {
                    cases.push(String::from_utf8_lossy(&s[2..2 + n]).to_string());
                }
            }
            // identify the culprit by running each candidate alone
            let mut culprit = None;
            for c in &cases {
                let st = std::process::Command::new(std::env::current_exe().unwrap())
                    .args(&args[1..])
                    .env("VERIF_CHILD", "1")
                    .env("VERIF_SLOTS", &slots_path)
                    .env("VERIF_ONLY", c)
                    .env("VERIF_NO_EVIDENCE", "1")
                    .stdout(std::process::Stdio::null())
                    .status();
                if let Ok(st) = st {
                    if st.code().is_none() {
                        culprit = Some(c.clone());
                        break;
                    }
                }
            }
            let case = culprit.unwrap_or(cases.join(" | "));
            let msg = format!("the process was killed by signal {} while running this case", sig);
            let path = write_replay(&prop, tier, &case, &msg, 0);
            println!("{}: {}", case, msg);
            println!("VIOLATION property={} replay={}", prop, path);
            std::process::exit(1);
        }
        eprintln!("child killed by signal {}", sig);
        std::process::exit(3);
    }
    std::panic::set_hook(Box::new(|info| {
        let s = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "unknown panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC_MSG.with(|m| *m.borrow_mut() = format!("panic at {}: {}", loc, s));
        if !MUTE.with(|m| *m.borrow()) && std::env::var("VERIF_VERBOSE").is_ok() {
            eprintln!("panic at {}: {}", loc, s);
        }
    }));
    let mut run = Run::new(&prop, tier);
    let start = Instant::now();
    // hang detection
    let ptr = &run as *const Run as usize;
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let run = unsafe { &*(ptr as *const Run) };
        let now = start.elapsed().as_millis() as u64 + 1;
        let limit = run.limit_ms.load(Ordering::Relaxed);
        for (t, key) in &run.running {
            let t = t.load(Ordering::Relaxed);
            if t > 0 && now > t && now - t > limit {
                let key = key.lock().unwrap().clone();
                let msg = format!("the case did not finish within {} s", limit / 1000);
                let path = write_replay(&run.prop, run.tier, &key, &msg, 0);
                say(format!("{}: {}", key, msg));
                say(format!("VIOLATION property={} replay={}", run.prop, path));
                std::process::exit(1);
            }
        }
    });
    run.t0 = start;
    f(&mut run);
    let code = run.finish();
    std::process::exit(code);
}

impl Run {
    fn new(prop: &str, tier: Tier) -> Self {
        let mut known = Vec::new();
        if let Ok(text) = std::fs::read_to_string(format!("{}/known-findings.txt", root())) {
            for line in text.lines() {
                // known: property=ID case=GLOB what
                if let Some(rest) = line.strip_prefix("known: ") {
                    let mut it = rest.splitn(3, ' ');
                    let p = it.next().unwrap_or("");
                    let c = it.next().unwrap_or("");
                    let w = it.next().unwrap_or("");
                    if p == format!("property={}", prop) {
                        if let Some(c) = c.strip_prefix("case=") {
                            known.push(Known { pattern: c.to_string(), what: w.to_string() });
                        }
                    }
                }
            }
        }
        let slots = match std::env::var("VERIF_SLOTS") {
            Ok(path) => {
                use std::os::fd::AsRawFd;
                let f = std::fs::OpenOptions::new().read(true).write(true).open(path).expect("slots");
                let p = unsafe { mmap(std::ptr::null_mut(), N_SLOT * SLOT_LEN, 3, 1, f.as_raw_fd(), 0) };
                if p as isize == -1 {
                    0
                } else {
                    p as usize
                }
            }
            Err(_) => 0,
        };
        Run {
            prop: prop.to_string(),
            tier,
            level: "exploration".to_string(),
            rule: String::new(),
            assumptions: Vec::new(),
            seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0),
            t0: Instant::now(),
            acc: Mutex::new(Acc::default()),
            known,
            only: std::env::var("VERIF_ONLY").ok(),
            stop: AtomicBool::new(false),
            slots,
            next_slot: AtomicUsize::new(0),
            running: (0..N_SLOT).map(|_| (AtomicU64::new(0), Mutex::new(String::new()))).collect(),
            limit_ms: AtomicU64::new(120_000),
        }
    }

    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }

    /// Picks a bound by tier
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.tier == Tier::Quick {
            quick
        } else {
            thorough
        }
    }

    /// "exploration", "fault_enumeration" or "model_checking"
    pub fn level(&mut self, level: &str, rule: &str) {
        self.level = level.to_string();
        self.rule = rule.to_string();
    }

    pub fn assume(&mut self, text: &str) {
        self.assumptions.push(text.to_string());
    }

    /// Explores items 0..n in parallel; the items partition the space of this section
    pub fn section<F>(&self, name: &str, n: usize, f: F)
    where
        F: Fn(&mut Ctx, usize) + Sync,
    {
        self.section_threads(name, n, 8, f)
    }

    pub fn section_threads<F>(&self, name: &str, n: usize, threads: usize, f: F)
    where
        F: Fn(&mut Ctx, usize) + Sync,
    {
        if let Some(only) = &self.only {
            if !only.starts_with(&format!("{}/", name)) {
                return;
            }
        }
        let t = Instant::now();
        let before = self.acc.lock().unwrap().cases;
        let next = AtomicUsize::new(0);
        let nt = usize::max(1, usize::min(threads, n));
        std::thread::scope(|s| {
            for _ in 0..nt {
                let next = &next;
                let f = &f;
                s.spawn(move || {
                    let slot = self.next_slot.fetch_add(1, Ordering::SeqCst) % N_SLOT;
                    let mut ctx = Ctx {
                        run: self,
                        section: name.to_string(),
                        tag: String::new(),
                        slot,
                        cases: 0,
                        transitions: 0,
                        states: HashSet::new(),
                        nontrivial: HashSet::new(),
                        samples: Vec::new(),
                    };
                    loop {
                        if self.stop.load(Ordering::Relaxed) {
                            break;
                        }
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= n {
                            break;
                        }
                        // a panic outside of a case is a problem of the harness or of a constructor
                        let r = catch_unwind(AssertUnwindSafe(|| f(&mut ctx, i)));
                        if r.is_err() {
                            let msg = PANIC_MSG.with(|m| m.borrow().clone());
                            ctx.report(format!("{}/item{}", name, i), format!("unexpected {}", msg));
                        }
                    }
                    let mut acc = self.acc.lock().unwrap();
                    acc.cases += ctx.cases;
                    acc.transitions += ctx.transitions;
                    acc.states.extend(ctx.states.drain());
                    acc.nontrivial.extend(ctx.nontrivial.drain());
                    if acc.samples.len() < 60 {
                        let k = if slot % nt == 0 { 3 } else { 1 };
                        acc.samples.extend(ctx.samples.drain(..).take(k));
                    }
                });
            }
        });
        let mut acc = self.acc.lock().unwrap();
        let count = acc.cases - before;
        acc.sections.push((name.to_string(), count, t.elapsed().as_secs_f64()));
    }

    fn finish(&self) -> i32 {
        let acc = self.acc.lock().unwrap();
        let wall = self.t0.elapsed().as_secs_f64();
        let tier = if self.tier == Tier::Quick { "quick" } else { "thorough" };
        for (name, n, t) in &acc.sections {
            say(format!("  section {:<28} cases {:>10}  {:.2} s", name, n, t));
        }
        say(format!(
            "{} {}: {} cases, {} distinct non-trivial, {} states, {} transitions, {:.1} s",
            self.prop,
            tier,
            acc.cases,
            acc.nontrivial.len(),
            acc.states.len(),
            acc.transitions,
            wall
        ));
        let complete = !self.stop.load(Ordering::Relaxed) && self.only.is_none();
        if std::env::var("VERIF_NO_EVIDENCE").is_err() && self.only.is_none() {
            let mut s = String::from("{\n");
            s += &format!(" \"property\": {},\n \"tier\": {},\n \"seed\": {},\n", esc(&self.prop), esc(tier), self.seed);
            s += &format!(" \"level\": {},\n \"coverage\": {{\n", esc(&self.level));
            if self.level == "model_checking" {
                s += &format!("  \"states\": {},\n  \"transitions\": {},\n", acc.states.len(), acc.transitions);
                s += &format!("  \"traces_validated_against_impl\": {},\n", acc.cases);
                s += &format!("  \"distinct_nontrivial\": {},\n", acc.nontrivial.len());
            } else {
                s += &format!("  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n", acc.cases, acc.nontrivial.len());
                s += &format!("  \"calls\": {},\n", acc.transitions);
                if acc.states.len() > 0 {
                    s += &format!("  \"states\": {},\n", acc.states.len());
                }
            }
            s += &format!("  \"rule\": {},\n", esc(&self.rule));
            s += "  \"sections\": {";
            s += &acc.sections.iter().map(|(n, c, _)| format!("{}: {}", esc(n), c)).collect::<Vec<_>>().join(", ");
            s += "},\n";
            if let Some(part) = std::env::var("VERIF_PART_IN").ok().and_then(|p| std::fs::read_to_string(p).ok()) {
                s += &format!("  \"other_build\": {},\n", part.trim());
            }
            s += &format!("  \"known_findings_met\": {},\n", acc.known.len());
            s += &format!("  \"exhaustive\": {},\n", complete);
            s += "  \"samples\": [";
            s += &acc.samples.iter().map(|x| esc(x)).collect::<Vec<_>>().join(", ");
            s += "]\n },\n";
            s += &format!(" \"assumptions\": [{}],\n", self.assumptions.iter().map(|a| esc(a)).collect::<Vec<_>>().join(", "));
            s += &format!(" \"wall_s\": {:.3},\n \"violations\": {}\n}}\n", wall, acc.violations.len());
            let dir = format!("{}/evidence", root());
            let _ = std::fs::create_dir_all(&dir);
            if std::fs::write(format!("{}/{}.json", dir, self.prop), s).is_err() {
                eprintln!("cannot write evidence");
                return 2;
            }
        }
        if let Ok(path) = std::env::var("VERIF_PART_OUT") {
            let s = format!(
                "{{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"calls\": {}, \"exhaustive\": {}}}\n",
                acc.cases,
                acc.nontrivial.len(),
                acc.transitions,
                complete
            );
            if std::fs::write(&path, s).is_err() {
                eprintln!("cannot write evidence");
                return 2;
            }
        }
        let mut seen = HashSet::new();
        for (k, case) in &acc.known {
            if seen.insert(*k) {
                let n = acc.known.iter().filter(|x| x.0 == *k).count();
                say(format!("KNOWN-FINDING: property={} {} (first case {}, {} cases)", self.prop, self.known[*k].what, case, n));
            }
        }
        if acc.violations.len() > 0 {
            for (i, (case, msg)) in acc.violations.iter().enumerate() {
                let path = write_replay(&self.prop, self.tier, case, msg, i + 1);
                say(format!("{}: {}", case, msg));
                say(format!("VIOLATION property={} replay={}", self.prop, path));
            }
            return 1;
        }
        if self.only.is_some() && acc.cases == 0 {
            eprintln!("no case matches VERIF_ONLY");
            return 2;
        }
        if acc.cases == 0 {
            eprintln!("nothing was explored");
            return 2;
        }
        0
    }
}

fn glob(pattern: &str, text: &str) -> bool {
    // only '*' is special
    let parts: Vec<&str> = pattern.split('*').collect();
    if parts.len() == 1 {
        return pattern == text;
    }
    let mut pos = 0;
    for (i, p) in parts.iter().enumerate() {
        if i == 0 {
            if !text.starts_with(p) {
                return false;
            }
            pos = p.len();
        } else if i == parts.len() - 1 {
            return text.len() >= pos + p.len() && text.ends_with(p);
        } else {
            match text[pos..].find(p) {
                Some(k) => pos += k + p.len(),
                None => return false,
            }
        }
    }
    true
}

impl<'a> Ctx<'a> {
    pub fn thorough(&self) -> bool {
        self.run.thorough()
    }

    /// Sets a prefix for the keys of the following cases
    pub fn tag(&mut self, tag: impl AsRef<str>) {
        self.tag = tag.as_ref().to_string();
    }

    /// Runs one case
    pub fn case<K, F>(&mut self, key: K, f: F)
    where
        K: AsRef<str>,
        F: FnOnce(&mut Trace) -> Outcome,
    {
        if self.run.stop.load(Ordering::Relaxed) {
            return;
        }
        let full = format!("{}/{}{}", self.section, self.tag, key.as_ref());
        if let Some(only) = &self.run.only {
            if only != &full {
                return;
            }
        }
        self.cases += 1;
        if self.run.slots != 0 {
            let b = full.as_bytes();
            let n = usize::min(b.len(), SLOT_LEN - 2);
            unsafe {
                let p = (self.run.slots as *mut u8).add(self.slot * SLOT_LEN);
                *p = (n % 256) as u8;
                *p.add(1) = (n / 256) as u8;
                std::ptr::copy_nonoverlapping(b.as_ptr(), p.add(2), n);
            }
        }
        {
            let r = &self.run.running[self.slot];
            let mut k = r.1.lock().unwrap();
            k.clear();
            k.push_str(&full);
            r.0.store(self.run.t0.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
        }
        let mut trace = Trace {
            transitions: &mut self.transitions,
            states: &mut self.states,
            trivial: false,
        };
        let res = catch_unwind(AssertUnwindSafe(|| f(&mut trace)));
        let trivial = trace.trivial;
        self.run.running[self.slot].0.store(0, Ordering::Relaxed);
        if self.run.slots != 0 {
            unsafe {
                let p = (self.run.slots as *mut u8).add(self.slot * SLOT_LEN);
                *p = 0;
                *p.add(1) = 0;
            }
        }
        if !trivial {
            self.nontrivial.insert(hash_of(&full));
        }
        if self.samples.len() < 3 && !trivial {
            self.samples.push(full.clone());
        }
        match res {
            Ok(Ok(())) => (),
            Ok(Err(msg)) => self.report(full, msg),
            Err(_) => {
                let msg = PANIC_MSG.with(|m| m.borrow().clone());
                self.report(full, msg);
            }
        }
    }

    fn report(&mut self, case: String, msg: String) {
        let mut acc = self.run.acc.lock().unwrap();
        for (i, k) in self.run.known.iter().enumerate() {
            if glob(&k.pattern, &case) {
                acc.known.push((i, case));
                return;
            }
        }
        acc.violations.push((case, msg));
        let max = std::env::var("VERIF_MAX").ok().and_then(|s| s.parse().ok()).unwrap_or(MAX_VIOLATIONS);
        if acc.violations.len() >= max {
            self.run.stop.store(true, Ordering::Relaxed);
        }
    }
}
