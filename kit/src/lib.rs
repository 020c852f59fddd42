//! Exploration engine shared by the model-checking harnesses.
//!
//! A check enumerates a finite space.  Every element of that space is a *state*
//! (`Mc::state`), every step from one element to the next - one operation of a
//! history, one lattice step of an observation point, one environment answer of
//! a scripted generator - is a *transition* (`Mc::step`), and every comparison
//! of the real code against the reference model along the way goes through
//! `Mc::expect`.  Nothing here is random: VERIF_SEED is recorded and unused.
pub mod num;
pub mod rng;

use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(old: i32, new: i32) -> i32;
    fn getppid() -> i32;
    fn kill(pid: i32, sig: i32) -> i32;
}

static OUT: OnceLock<Mutex<std::fs::File>> = OnceLock::new();

/// Keeps the real standard output for the report: the numerical C library behind the
/// crate prints its own remarks to file descriptor 1, which go nowhere from here on.
fn own_stdout() {
    OUT.get_or_init(|| {
        use std::os::fd::{AsRawFd, FromRawFd};
        let null = std::fs::OpenOptions::new().write(true).open("/dev/null").expect("/dev/null");
        // SAFETY: plain descriptor duplication; the duplicate is owned by the File
        unsafe {
            let fd = dup(1);
            dup2(null.as_raw_fd(), 1);
            Mutex::new(std::fs::File::from_raw_fd(fd))
        }
    });
}

pub fn say_line(s: String) {
    use std::io::Write;
    match OUT.get() {
        Some(f) => {
            if let Ok(mut f) = f.lock() {
                let _ = f.write_all(s.as_bytes());
            }
        },
        None => print!("{}", s),
    }
}

macro_rules! say {
    ($($t:tt)*) => { $crate::say_line(format!($($t)*) + "\n") };
}


#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

struct Known {
    property: String,
    key: String,
    what: String,
}

struct Violation {
    key: String,
    detail: String,
}

pub struct Mc {
    pub prop: String,
    pub tier: Tier,
    seed: u64,
    verif: String,
    only: Option<String>,
    known: Vec<Known>,
    known_hit: BTreeMap<usize, u64>,
    states: u64,
    transitions: u64,
    traces: u64,
    checks: u64,
    outcomes: HashSet<u64>,
    sites: BTreeMap<String, u64>,
    samples: Vec<String>,
    sample_sites: BTreeSet<String>,
    violations: Vec<Violation>,
    n_viol: u64,
    per_site_viol: BTreeMap<String, u64>,
    assumptions: Vec<String>,
    bounds: Vec<String>,
    skipped: Vec<String>,
    /// which slice of the enumeration this process explores: (index, slices)
    part: (u64, u64),
    units: u64,
    t0: Instant,
}

pub(crate) static HEART: AtomicU64 = AtomicU64::new(0);
static LABEL: Mutex<String> = Mutex::new(String::new());

fn fnv(s: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Outcome of running one piece of the real code.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            format!("panicked: {}", s)
        } else if let Some(s) = e.downcast_ref::<String>() {
            format!("panicked: {}", s)
        } else {
            "panicked".to_string()
        }
    })
}

thread_local! {
    /// Where the last panic of this thread started.
    static LAST_PANIC: std::cell::RefCell<String> = Default::default();
}

impl Mc {
    /// Runs the whole exploration of a property.  On a tree where the property holds it runs to its
    /// end, so a panic that nothing expected (valid settings refused, an index out of range) is
    /// itself a violation.
    pub fn explore(&mut self, f: impl FnOnce(&mut Mc)) {
        if let Err(e) = guarded(|| f(self)) {
            let at = LAST_PANIC.with(|p| p.borrow().clone());
            self.only = None;
            self.expect("the exploration runs to its end", || format!("panic at {}", at), false, || e);
        }
    }

    pub fn new(prop: &str, tier: Tier, only: Option<String>) -> Mc {
        std::panic::set_hook(Box::new(|i| {
            let at = i.location().map_or(String::new(), |l| format!("{}:{}", l.file(), l.line()));
            LAST_PANIC.with(|p| *p.borrow_mut() = at);
        }));
        let verif = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let mut known = vec![];
        let path = format!("{}/known_findings.txt", verif);
        for line in std::fs::read_to_string(&path).unwrap_or_default().lines() {
            // open: property=<id> key=<<exact key>> :: what fails
            if let Some(rest) = line.strip_prefix("open: property=") {
                let (p, rest) = rest.split_once(" key=<<").expect("known_findings.txt: key");
                let (k, w) = rest.split_once(">> :: ").expect("known_findings.txt: text");
                known.push(Known { property: p.into(), key: k.into(), what: w.into() });
            }
        }
        // files run.py had to leave out because they do not compile
        let skipped = std::env::var("VERIF_NOT_JUDGED").iter().map(|f| format!("{}: does not compile", f)).collect();
        let m = Mc {
            prop: prop.into(),
            tier,
            seed,
            verif,
            only,
            known,
            known_hit: BTreeMap::new(),
            states: 0,
            transitions: 0,
            traces: 0,
            checks: 0,
            outcomes: HashSet::new(),
            sites: BTreeMap::new(),
            samples: vec![],
            sample_sites: BTreeSet::new(),
            violations: vec![],
            n_viol: 0,
            per_site_viol: BTreeMap::new(),
            assumptions: vec![],
            bounds: vec![],
            skipped,
            part: PART.get().cloned().unwrap_or((0, 1)),
            units: 0,
            t0: Instant::now(),
        };
        m.watchdog();
        m
    }

    /// Enumerations that are cut into slices ask here, once per unit and in the same order in every
    /// process, whether the next unit is theirs.
    pub fn mine(&mut self) -> bool {
        self.units += 1;
        self.units % self.part.1 == self.part.0
    }

    /// `explore` for an enumeration whose units all go through `mine`: one process per processor
    /// (the numerical C library is not safe to share between threads), each with its own slice.
    pub fn explore_sliced(&mut self, f: impl FnOnce(&mut Mc)) {
        let n = std::env::var("VERIF_JOBS").ok().and_then(|s| s.parse().ok())
            .unwrap_or_else(|| std::thread::available_parallelism().map_or(1, |n| n.get() as u64).min(8));
        let exe = match std::env::current_exe() {
            Ok(e) if n > 1 && self.only.is_none() && PART.get().is_none() => e,
            _ => return self.explore(f),
        };
        let tier = if self.thorough() { "thorough" } else { "quick" };
        let mut kids: Vec<Option<std::process::Child>> = (0..n)
            .map(|i| {
                Some(std::process::Command::new(&exe).args([&self.prop, tier, "--part", &format!("{}/{}", i, n)]).spawn().expect("slice"))
            })
            .collect();
        // whatever ends one slice early ends the run
        let mut left = n;
        while left > 0 {
            std::thread::sleep(Duration::from_millis(20));
            HEART.fetch_add(1, Ordering::Relaxed);
            for i in 0..n as usize {
                let status = match &mut kids[i] {
                    Some(k) => k.try_wait().expect("slice"),
                    None => None,
                };
                let status = match status {
                    Some(s) => s,
                    None => continue,
                };
                left -= 1;
                kids[i] = None;
                let file = dump_path(&self.verif, &self.prop, i as u64);
                let at = format!("{}/evidence/.{}.at", self.verif, self.prop);
                let label = std::fs::read_to_string(format!("{}.{}", at, i)).unwrap_or_default();
                let _ = std::fs::remove_file(format!("{}.{}", at, i));
                if status.code() == Some(0) {
                    let text = std::fs::read_to_string(&file).expect("slice report");
                    let _ = std::fs::remove_file(&file);
                    self.absorb(&text);
                    continue;
                }
                let _ = std::fs::remove_file(&file);
                for k in kids.iter_mut().flatten() {
                    let _ = k.kill();
                    let _ = k.wait();
                }
                for j in 0..n {
                    let _ = std::fs::remove_file(dump_path(&self.verif, &self.prop, j));
                    let _ = std::fs::remove_file(format!("{}.{}", at, j));
                }
                if status.code() == Some(HUNG) {
                    hung(&self.verif, &self.prop, &label);
                }
                use std::os::unix::process::ExitStatusExt;
                if let Some(s) = status.signal() {
                    // die the same way: the supervising script takes it from here
                    let _ = std::fs::write(&at, &label);
                    unsafe {
                        kill(std::process::id() as i32, s);
                    }
                    std::thread::sleep(Duration::from_secs(5));
                }
                std::process::exit(status.code().unwrap_or(2));
            }
        }
    }

    fn dump(&self) -> String {
        let esc = |s: &str| s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t");
        let mut o = format!("n\t{}\t{}\t{}\t{}\t{}\n", self.states, self.transitions, self.traces, self.checks, self.n_viol);
        for (k, v) in &self.known_hit {
            o += &format!("k\t{}\t{}\n", k, v);
        }
        for x in &self.outcomes {
            o += &format!("o\t{:x}\n", x);
        }
        for (k, v) in &self.sites {
            o += &format!("s\t{}\t{}\n", esc(k), v);
        }
        for (c, v) in [("e", &self.samples), ("a", &self.assumptions), ("b", &self.bounds), ("x", &self.skipped)] {
            for s in v {
                o += &format!("{}\t{}\n", c, esc(s));
            }
        }
        for v in &self.violations {
            o += &format!("v\t{}\t{}\n", esc(&v.key), esc(&v.detail));
        }
        o + "end\n"
    }

    fn absorb(&mut self, text: &str) {
        fn un(s: &str) -> String {
            let mut o = String::new();
            let mut it = s.chars();
            while let Some(c) = it.next() {
                o.push(if c != '\\' { c } else {
                    match it.next() { Some('n') => '\n', Some('t') => '\t', Some(c) => c, None => '\\' }
                });
            }
            o
        }
        assert!(text.ends_with("end\n"), "a slice report is incomplete");
        for l in text.lines() {
            let w: Vec<&str> = l.split('\t').collect();
            let num = |i: usize| w[i].parse::<u64>().expect("slice report");
            match w[0] {
                "n" => {
                    self.states += num(1);
                    self.transitions += num(2);
                    self.traces += num(3);
                    self.checks += num(4);
                    self.n_viol += num(5);
                },
                "k" => *self.known_hit.entry(num(1) as usize).or_insert(0) += num(2),
                "o" => { self.outcomes.insert(u64::from_str_radix(w[1], 16).expect("slice report")); },
                "s" => *self.sites.entry(un(w[1])).or_insert(0) += num(2),
                "e" => {
                    let s = un(w[1]);
                    let site = s.split(" @ ").next().unwrap_or("").to_string();
                    if self.sample_sites.insert(site) {
                        self.samples.push(s);
                    }
                },
                "v" => {
                    let key = un(w[1]);
                    let c = self.per_site_viol.entry(key.split(" @ ").next().unwrap_or("").to_string()).or_insert(0);
                    *c += 1;
                    if *c <= 3 && self.violations.len() < 400 {
                        self.violations.push(Violation { key, detail: un(w[2]) });
                    }
                },
                c @ ("a" | "b" | "x") => {
                    let s = un(w[1]);
                    let v = match c { "a" => &mut self.assumptions, "b" => &mut self.bounds, _ => &mut self.skipped };
                    if !v.contains(&s) {
                        v.push(s);
                    }
                },
                _ => (),
            }
        }
    }

    /// A single case that makes no progress for two minutes hangs: that is a
    /// violation too (every case takes far less than a second).
    fn watchdog(&self) {
        let (verif, prop) = (self.verif.clone(), self.prop.clone());
        std::thread::spawn(move || {
            let mut last = HEART.load(Ordering::Relaxed);
            let mut since = Instant::now();
            let parent = unsafe { getppid() };
            loop {
                std::thread::sleep(Duration::from_millis(500));
                if PART.get().is_some() && unsafe { getppid() } != parent {
                    // nobody is left to collect this slice
                    std::process::exit(2);
                }
                let now = HEART.load(Ordering::Relaxed);
                if now != last {
                    last = now;
                    since = Instant::now();
                } else if since.elapsed() > Duration::from_secs(120) {
                    let label = LABEL.lock().map(|l| l.clone()).unwrap_or_default();
                    if PART.get().is_some() {
                        std::process::exit(HUNG);
                    }
                    hung(&verif, &prop, &label);
                }
            }
        });
    }

    pub fn thorough(&self) -> bool { self.tier == Tier::Thorough }

    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() { thorough } else { quick }
    }

    /// Names the group of states being explored (shown if the code hangs or dies).
    pub fn at(&mut self, label: &str) {
        HEART.fetch_add(1, Ordering::Relaxed);
        if let Ok(mut l) = LABEL.lock() {
            *l = label.to_string();
        }
        // the supervising script reads this if the process is killed by a signal
        let _ = match self.part.1 {
            1 => std::fs::write(format!("{}/evidence/.{}.at", self.verif, self.prop), label),
            _ => std::fs::write(format!("{}/evidence/.{}.at.{}", self.verif, self.prop, self.part.0), label),
        };
    }

    pub fn state(&mut self) {
        self.states += 1;
        if self.states & 0x3ff == 0 {
            HEART.fetch_add(1, Ordering::Relaxed);
        }
    }

    pub fn states_add(&mut self, n: u64) {
        self.states += n;
        HEART.fetch_add(1, Ordering::Relaxed);
    }

    pub fn step(&mut self) { self.transitions += 1; }

    pub fn steps_add(&mut self, n: u64) { self.transitions += n; }

    /// One complete model trace replayed against the implementation.
    pub fn trace(&mut self) { self.traces += 1; }

    pub fn traces_add(&mut self, n: u64) { self.traces += n; }

    /// Distinct observed results: few outcomes over many states would mean a
    /// vacuous exploration.
    pub fn outcome(&mut self, s: &str) { self.outcomes.insert(fnv(s)); }

    pub fn outcome_f(&mut self, x: f64) { self.outcomes.insert(x.to_bits()); }

    pub fn assume(&mut self, s: &str) { self.assumptions.push(s.into()); }

    pub fn bound(&mut self, s: &str) { self.bounds.push(s.into()); }

    pub fn skip(&mut self, s: &str) { self.skipped.push(s.into()); }

    /// `site`: which behaviour is judged; `input`: the exact input or history.
    pub fn expect(
        &mut self,
        site: &str,
        input: impl FnOnce() -> String,
        ok: bool,
        detail: impl FnOnce() -> String,
    ) -> bool {
        self.checks += 1;
        *self.sites.entry_ref(site) += 1;
        if ok {
            if self.sample_sites.len() < 60 && !self.sample_sites.contains(site) {
                self.sample_sites.insert(site.into());
                let s = format!("{} @ {}", site, input());
                self.samples.push(s);
            }
            return true;
        }
        let key = format!("{} @ {}", site, input());
        if let Some(o) = &self.only {
            if *o != key {
                return false;
            }
        }
        if let Some(i) = self.known.iter().position(|k| k.property == self.prop && k.key == key) {
            *self.known_hit.entry(i).or_insert(0) += 1;
            return false;
        }
        self.n_viol += 1;
        let c = self.per_site_viol.entry(site.to_string()).or_insert(0);
        *c += 1;
        if *c <= 3 && self.violations.len() < 400 {
            let detail = detail();
            self.violations.push(Violation { key, detail });
        }
        false
    }

    /// Compares with relative tolerance `rel` and absolute tolerance `abs`.
    pub fn close(
        &mut self,
        site: &str,
        input: impl FnOnce() -> String,
        got: &Result<f64, String>,
        want: f64,
        rel: f64,
        abs: f64,
    ) -> bool {
        match got {
            Ok(g) => {
                let ok = near(*g, want, rel, abs);
                let g = *g;
                self.outcome_f(g);
                self.expect(site, input, ok, || format!("got {:e}, reference {:e}", g, want))
            },
            Err(e) => {
                let e = e.clone();
                self.expect(site, input, false, || format!("{} (reference {:e})", e, want))
            },
        }
    }

    pub fn finish(self, exhaustive: bool) -> i32 {
        if PART.get().is_some() {
            std::fs::write(dump_path(&self.verif, &self.prop, self.part.0), self.dump()).expect("slice report");
            return 0;
        }
        let wall = self.t0.elapsed().as_secs_f64();
        let _ = std::fs::remove_file(format!("{}/evidence/.{}.at", self.verif, self.prop));
        let arr = |v: &[String]| format!("[{}]", v.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "));
        let sites: Vec<String> =
            self.sites.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect();
        let mut samples = self.samples.clone();
        samples.truncate(40);
        let ev = format!(
            "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"evaluations\": {},\n  \"distinct_outcomes\": {},\n  \"exhaustive\": {},\n  \"bounds\": {},\n  \"not_explored\": {},\n  \"comparisons_per_site\": {{{}}},\n  \"known_findings_seen\": {},\n  \"samples\": {}\n }},\n \"assumptions\": {},\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
            json_str(&self.prop),
            json_str(if self.tier == Tier::Quick { "quick" } else { "thorough" }),
            self.seed,
            self.states,
            self.transitions,
            self.traces,
            self.checks,
            self.outcomes.len(),
            exhaustive && std::env::var_os("VERIF_NOT_JUDGED").is_none(),
            arr(&self.bounds),
            arr(&self.skipped),
            sites.join(", "),
            self.known_hit.len(),
            arr(&samples),
            arr(&self.assumptions),
            wall,
            self.n_viol,
        );
        if self.only.is_none() {
            std::fs::write(format!("{}/evidence/{}.json", self.verif, self.prop), ev)
                .expect("write evidence");
        }
        say!(
            "{}: states={} transitions={} traces={} comparisons={} outcomes={} wall={:.1}s",
            self.prop, self.states, self.transitions, self.traces, self.checks,
            self.outcomes.len(), wall
        );
        for (i, n) in self.known_hit.iter() {
            let k = &self.known[*i];
            say!("KNOWN-FINDING: property={} {} [{}] ({} times)", k.property, k.what, k.key, n);
        }
        if self.states == 0 || self.checks == 0 {
            say!("error: nothing was explored");
            return 2;
        }
        for (i, v) in self.violations.iter().enumerate() {
            let p = write_replay(&self.verif, &self.prop, i, &v.key, &v.detail);
            say!("  {} : {}", v.key, v.detail);
            if i < 40 {
                say!("VIOLATION property={} replay={}", self.prop, p);
            }
        }
        if self.n_viol > 0 {
            say!("{}: {} violating comparisons", self.prop, self.n_viol);
            1
        } else {
            0
        }
    }
}

/// Exit status of a slice that makes no progress.
const HUNG: i32 = 97;

/// The slice given on the command line.
static PART: OnceLock<(u64, u64)> = OnceLock::new();

fn dump_path(verif: &str, prop: &str, i: u64) -> String { format!("{}/evidence/.{}.part.{}", verif, prop, i) }

fn hung(verif: &str, prop: &str, label: &str) -> ! {
    let p = write_replay(verif, prop, 0, label, "no progress for 120 s (does not terminate)");
    say!("  {} : no progress for 120 s", label);
    say!("VIOLATION property={} replay={}", prop, p);
    std::process::exit(1)
}

fn write_replay(verif: &str, prop: &str, i: usize, key: &str, detail: &str) -> String {
    let dir = format!("{}/evidence/replay", verif);
    let _ = std::fs::create_dir_all(&dir);
    let p = format!("{}/{}-{}.json", dir, prop, i);
    let _ = std::fs::write(
        &p,
        format!(
            "{{\"property\": {}, \"key\": {}, \"detail\": {}, \"rerun\": {}}}\n",
            json_str(prop),
            json_str(key),
            json_str(detail),
            json_str(&format!("cd /verif && ./run.py --replay {}", p))
        ),
    );
    p
}

trait EntryRef {
    fn entry_ref(&mut self, k: &str) -> &mut u64;
}

impl EntryRef for BTreeMap<String, u64> {
    fn entry_ref(&mut self, k: &str) -> &mut u64 {
        if !self.contains_key(k) {
            self.insert(k.to_string(), 0);
        }
        self.get_mut(k).unwrap()
    }
}

pub fn near(g: f64, w: f64, rel: f64, abs: f64) -> bool {
    if w.is_nan() {
        return g.is_nan();
    }
    if g == w {
        return true;
    }
    if g.is_nan() || g.is_infinite() || w.is_infinite() {
        return false;
    }
    (g - w).abs() <= abs + rel * w.abs().max(g.abs())
}

/// Command line shared by the harness binaries: `<bin> <PROPERTY> <quick|thorough> [--only KEY]`.
pub fn args() -> (String, Tier, Option<String>) {
    own_stdout();
    let a: Vec<String> = std::env::args().collect();
    let prop = a.get(1).expect("property").clone();
    let tier = match a.get(2).map(|s| s.as_str()) {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let only = a.iter().position(|s| s == "--only").map(|i| a[i + 1].clone());
    if let Some(i) = a.iter().position(|s| s == "--part") {
        let (i, n) = a[i + 1].split_once('/').expect("part");
        PART.get_or_init(|| (i.parse().expect("part"), n.parse().expect("part")));
    }
    (prop, tier, only)
}
