//! Monitor runtime: deterministic case generation, panic/abort/hang capture,
//! three-valued verdicts, evidence and replay files.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const CASE_CPU_LIMIT_S: f64 = 100.0;

#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}
fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn fnv(bytes: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        let s = [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)];
        Self { s }
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    /// uniform in [0,1)
    pub fn f(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn range(&mut self, a: f64, b: f64) -> f64 {
        a + (b - a) * self.f()
    }
    /// integer in [0,n)
    pub fn below(&mut self, n: usize) -> usize {
        (self.u64() % (n as u64)) as usize
    }
    /// integer in [a,b]
    pub fn int(&mut self, a: i64, b: i64) -> i64 {
        a + (self.u64() % ((b - a + 1) as u64)) as i64
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.f() < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    /// log-uniform
    pub fn logu(&mut self, a: f64, b: f64) -> f64 {
        (self.range(a.ln(), b.ln())).exp()
    }
    pub fn normal(&mut self) -> f64 {
        let u = 1.0 - self.f();
        let v = self.f();
        (-2.0 * u.ln()).sqrt() * (2.0 * std::f64::consts::PI * v).cos()
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

/// One case of a workload.
pub struct Case {
    pub rng: Rng,
    pub idx: u64,
    pub tier_thorough: bool,
    nontrivial: Vec<u64>,
    sample: Option<String>,
    events: BTreeMap<&'static str, u64>,
    desc: String,
}
impl Case {
    /// describe the input (goes into the replay file / samples)
    pub fn desc<S: Into<String>>(&mut self, s: S) {
        self.desc = s.into();
    }
    /// record a distinct, non-trivial observation by its fingerprint
    pub fn seen(&mut self, fp: &str) {
        self.nontrivial.push(fnv(fp.as_bytes()));
    }
    pub fn event(&mut self, name: &'static str, n: u64) {
        *self.events.entry(name).or_insert(0) += n;
    }
    pub fn sample(&mut self, s: String) {
        if self.sample.is_none() {
            self.sample = Some(s)
        }
    }
}

pub enum Fail {
    /// property violated
    Bad(String),
    /// matches a *candidate* known-finding signature
    Known(&'static str, String),
    /// harness could not decide this case
    Inconclusive(String),
}
impl From<String> for Fail {
    fn from(s: String) -> Self {
        Fail::Bad(s)
    }
}
impl From<&str> for Fail {
    fn from(s: &str) -> Self {
        Fail::Bad(s.to_string())
    }
}
pub type R = Result<(), Fail>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err($crate::core::Fail::Bad(format!($($a)*))); } };
}
#[macro_export]
macro_rules! incon {
    ($($a:tt)*) => { return Err($crate::core::Fail::Inconclusive(format!($($a)*))) };
}

pub struct Workload {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: fn(&mut Case) -> R,
    /// number of worker threads (0 = default)
    pub threads: usize,
    /// a panic of the code under test counts as a violation
    pub panics_violate: bool,
    /// minimum total of each named event for the run to count as having observed something
    pub need: &'static [(&'static str, u64)],
}
pub const fn wl(name: &'static str, quick: u64, thorough: u64, f: fn(&mut Case) -> R) -> Workload {
    Workload { name, quick, thorough, f, threads: 0, panics_violate: true, need: &[] }
}
impl Workload {
    pub const fn need(mut self, n: &'static [(&'static str, u64)]) -> Self {
        self.need = n;
        self
    }
    pub const fn single(mut self) -> Self {
        self.threads = 1;
        self
    }
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub workloads: &'static [Workload],
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = RefCell::new(None);
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{} at {}", msg, loc)));
    }));
}
/// Run a piece of code under test; Err(panic message) if it panicked.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())),
    }
}

fn case_seed(prop: &str, wl: &str, seed: u64, idx: u64) -> u64 {
    let mut x = fnv(prop.as_bytes()) ^ fnv(wl.as_bytes()).rotate_left(17) ^ seed.wrapping_mul(0xD6E8FEB86659FD93);
    let a = splitmix(&mut x);
    a ^ idx.wrapping_mul(0x9E3779B97F4A7C15)
}

fn thread_cpu(tid: u64) -> Option<f64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).ok()?;
    let r = s.rfind(')')?;
    let f: Vec<&str> = s[r + 2..].split(' ').collect();
    let ut: f64 = f[11].parse().ok()?;
    let st: f64 = f[12].parse().ok()?;
    Some((ut + st) / 100.0)
}
fn gettid() -> u64 {
    unsafe { libc::syscall(libc::SYS_gettid) as u64 }
}

#[derive(Clone)]
pub struct Violation {
    pub workload: String,
    pub idx: u64,
    pub msg: String,
    pub desc: String,
}

#[derive(Default)]
struct Acc {
    evals: u64,
    nontrivial: HashSet<u64>,
    samples: Vec<String>,
    events: BTreeMap<String, u64>,
    violations: Vec<Violation>,
    known: BTreeMap<String, String>,
    inconclusive: Vec<String>,
}

pub struct RunCfg {
    pub seed: u64,
    pub thorough: bool,
    pub only: Option<(String, u64)>,
    pub scale: f64,
}

/// run a single case; returns verdict
fn run_case(p: &Prop, w: &Workload, cfg: &RunCfg, idx: u64) -> (Case, Result<(), Fail>) {
    let mut c = Case {
        rng: Rng::new(case_seed(p.id, w.name, cfg.seed, idx)),
        idx,
        tier_thorough: cfg.thorough,
        nontrivial: vec![],
        sample: None,
        events: BTreeMap::new(),
        desc: String::new(),
    };
    let r = catch_unwind(AssertUnwindSafe(|| (w.f)(&mut c)));
    let r = match r {
        Ok(v) => v,
        Err(_) => {
            let m = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            // a panic located in the harness itself is a harness error, unless it is
            // an unwrap()/expect() on a result produced by the code under test (never used for verdicts)
            if m.contains(" at src/") || m.contains("/verif/harness/") {
                Err(Fail::Inconclusive(format!("harness panic: {}", m)))
            } else if w.panics_violate {
                Err(Fail::Bad(format!("code under test panicked: {}", m)))
            } else {
                Err(Fail::Inconclusive(format!("panic: {}", m)))
            }
        }
    };
    (c, r)
}

struct Shared {
    tid: AtomicU64,
    case: AtomicU64, // idx+1, 0 = idle
    cpu0: AtomicU64, // ms
}

pub fn known_signatures(prop: &str) -> BTreeMap<String, String> {
    let mut out = BTreeMap::new();
    let path = std::env::var("VH_KNOWN").unwrap_or_else(|_| "/verif/known_findings.json".into());
    if let Ok(s) = std::fs::read_to_string(path) {
        if let Ok(v) = serde_json::from_str::<serde_json::Value>(&s) {
            if let Some(a) = v["findings"].as_array() {
                for e in a {
                    if e["property"] == prop {
                        out.insert(
                            e["signature"].as_str().unwrap_or("").to_string(),
                            e["what"].as_str().unwrap_or("").to_string(),
                        );
                    }
                }
            }
        }
    }
    out
}

/// Execute a property in this (child) process. Writes the result JSON to `out`.
pub fn run_child(p: &'static Prop, cfg: &RunCfg, out: &str, status: &str) -> i32 {
    install_panic_hook();
    let known = known_signatures(p.id);
    let acc = Mutex::new(Acc::default());
    let start = Instant::now();
    let wall_cap = Duration::from_secs_f64(if cfg.thorough { 3000.0 } else { 420.0 });
    let nthreads_default = std::thread::available_parallelism().map(|v| v.get()).unwrap_or(4).min(8);
    let statusf = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(status).ok();

    for w in p.workloads {
        let total = if let Some((n, _)) = &cfg.only {
            if n != w.name {
                continue;
            }
            1
        } else {
            let (q, t) = crate::props::effort(p.id);
            let n = if cfg.thorough { w.thorough * t } else { w.quick * q };
            ((n as f64 * cfg.scale).ceil() as u64).max(1)
        };
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let live = AtomicUsize::new(0);
        let nth = if cfg.only.is_some() { 1 } else if w.threads > 0 { w.threads } else { nthreads_default };
        let shared: Vec<Shared> = (0..nth)
            .map(|_| Shared { tid: AtomicU64::new(0), case: AtomicU64::new(0), cpu0: AtomicU64::new(0) })
            .collect();
        live.store(nth, Ordering::SeqCst);
        std::thread::scope(|s| {
            for t in 0..nth {
                let (acc, next, stop, live, shared, known, statusf) =
                    (&acc, &next, &stop, &live, &shared, &known, &statusf);
                let builder = std::thread::Builder::new().stack_size(64 << 20);
                builder
                    .spawn_scoped(s, move || {
                        let tid = gettid();
                        shared[t].tid.store(tid, Ordering::SeqCst);
                        let mut local = Acc::default();
                        loop {
                            if stop.load(Ordering::Relaxed) {
                                break;
                            }
                            if start.elapsed() > wall_cap {
                                break;
                            }
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= total {
                                break;
                            }
                            let idx = if let Some((_, k)) = &cfg.only { *k } else { i };
                            if let Some(f) = statusf {
                                use std::os::unix::fs::FileExt;
                                let _ = f.write_at(format!("{:<40} {:<20}\n", w.name, idx).as_bytes(), (t * 62) as u64);
                            }
                            let c0 = thread_cpu(tid).unwrap_or(0.0);
                            shared[t].cpu0.store((c0 * 1000.0) as u64, Ordering::SeqCst);
                            shared[t].case.store(idx + 1, Ordering::SeqCst);
                            let (c, r) = run_case(p, w, cfg, idx);
                            shared[t].case.store(0, Ordering::SeqCst);
                            local.evals += 1;
                            for h in &c.nontrivial {
                                local.nontrivial.insert(*h ^ fnv(w.name.as_bytes()));
                            }
                            for (k, v) in &c.events {
                                *local.events.entry(format!("{}.{}", w.name, k)).or_insert(0) += v;
                            }
                            if let Some(s) = &c.sample {
                                if local.samples.len() < 2 {
                                    local.samples.push(format!("{}[{}]: {}", w.name, idx, s));
                                }
                            } else if !c.desc.is_empty() && local.samples.len() < 2 {
                                local.samples.push(format!("{}[{}]: {}", w.name, idx, c.desc));
                            }
                            match r {
                                Ok(()) => {}
                                Err(Fail::Inconclusive(m)) => {
                                    local.inconclusive.push(format!("{}[{}]: {}", w.name, idx, m));
                                }
                                Err(Fail::Known(sig, m)) if known.contains_key(sig) => {
                                    local.known.entry(sig.to_string()).or_insert(m);
                                }
                                Err(Fail::Known(_, m)) | Err(Fail::Bad(m)) => {
                                    local.violations.push(Violation {
                                        workload: w.name.to_string(),
                                        idx,
                                        msg: m,
                                        desc: c.desc.clone(),
                                    });
                                    if local.violations.len() >= 3 {
                                        stop.store(true, Ordering::Relaxed);
                                    }
                                }
                            }
                        }
                        let mut g = acc.lock().unwrap();
                        g.evals += local.evals;
                        g.nontrivial.extend(local.nontrivial);
                        for (k, v) in local.events {
                            *g.events.entry(k).or_insert(0) += v;
                        }
                        for s in local.samples {
                            if g.samples.iter().filter(|x| x.starts_with(w.name)).count() < 2 {
                                g.samples.push(s)
                            }
                        }
                        g.violations.extend(local.violations);
                        g.inconclusive.extend(local.inconclusive);
                        for (k, v) in local.known {
                            g.known.entry(k).or_insert(v);
                        }
                        live.fetch_sub(1, Ordering::SeqCst);
                    })
                    .expect("spawn");
            }
            // watchdog: CPU time of the case in flight (not wall-clock)
            let (shared, live) = (&shared, &live);
            let wlname = w.name;
            s.spawn(move || {
                let mut tick = 0u64;
                while live.load(Ordering::SeqCst) > 0 {
                    std::thread::sleep(Duration::from_millis(20));
                    tick += 1;
                    if tick % 50 != 0 {
                        continue;
                    }
                    for sh in shared {
                        let k = sh.case.load(Ordering::SeqCst);
                        if k == 0 {
                            continue;
                        }
                        let c0 = sh.cpu0.load(Ordering::SeqCst) as f64 / 1000.0;
                        if let Some(c) = thread_cpu(sh.tid.load(Ordering::SeqCst)) {
                            if c - c0 > CASE_CPU_LIMIT_S && sh.case.load(Ordering::SeqCst) == k {
                                // does not terminate: hand over to the supervisor
                                let _ = std::fs::write(
                                    format!("{}.hang", std::env::var("VH_OUT").unwrap_or_default()),
                                    format!("{} {}", wlname, k - 1),
                                );
                                unsafe { libc::_exit(77) };
                            }
                        }
                    }
                }
            });
        });
    }

    let mut g = acc.into_inner().unwrap();
    // non-vacuity of what was observed
    if cfg.only.is_none() && g.violations.is_empty() {
        for w in p.workloads {
            for (k, n) in w.need {
                let got = *g.events.get(&format!("{}.{}", w.name, k)).unwrap_or(&0);
                let need = if cfg.scale < 1.0 { 1 } else { *n };
                if got < need {
                    g.inconclusive.push(format!("{}: observed only {} '{}' events (need {})", w.name, got, k, need));
                }
            }
        }
    }
    g.violations.sort_by(|a, b| (a.workload.clone(), a.idx).cmp(&(b.workload.clone(), b.idx)));
    let js = serde_json::json!({
        "evaluations": g.evals,
        "distinct": g.nontrivial.len(),
        "samples": g.samples,
        "events": g.events,
        "violations": g.violations.iter().take(5).map(|v| serde_json::json!({
            "workload": v.workload, "idx": v.idx, "msg": v.msg, "desc": v.desc})).collect::<Vec<_>>(),
        "n_violations": g.violations.len(),
        "known": g.known,
        "inconclusive": g.inconclusive.iter().take(5).cloned().collect::<Vec<_>>(),
        "n_inconclusive": g.inconclusive.len(),
        "wall_s": start.elapsed().as_secs_f64(),
    });
    let mut f = std::fs::File::create(out).expect("out");
    f.write_all(serde_json::to_string_pretty(&js).unwrap().as_bytes()).unwrap();
    0
}

static SCRATCH_N: AtomicU64 = AtomicU64::new(0);
/// a fresh path inside the scratch directory of this run (removed by the supervisor)
pub fn scratch(ext: &str) -> String {
    let d = format!("{}.d", std::env::var("VH_OUT").unwrap_or_else(|_| "/tmp/vh-scratch".into()));
    let _ = std::fs::create_dir_all(&d);
    format!("{}/{}{}", d, SCRATCH_N.fetch_add(1, Ordering::Relaxed), ext)
}
