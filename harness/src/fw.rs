//! Workload runner: deterministic cases, event counters, verdicts.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(mix(seed ^ 0x9E3779B97F4A7C15))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.0)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        (self.next() % n as u64) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        (self.next() % den as u64) < num as u64
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn bool(&mut self) -> bool {
        self.next() & 1 == 1
    }
}
pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

#[derive(Debug, Clone)]
pub struct Fail {
    /// Stable signature used to match known findings.
    pub sig: String,
    pub msg: String,
}
pub type R = Result<(), Fail>;
pub fn fail<T>(sig: &str, msg: impl Into<String>) -> Result<T, Fail> {
    let mut msg: String = msg.into();
    if msg.len() > 6000 {
        let mut k = 6000;
        while !msg.is_char_boundary(k) {
            k -= 1;
        }
        msg.truncate(k);
        msg.push_str("…[truncated]");
    }
    Err(Fail { sig: sig.to_string(), msg })
}
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !($cond) { return $crate::fw::fail($sig, format!($($arg)*)); }
    };
}

#[derive(Default, Clone)]
pub struct Stats {
    pub evals: u64,
    pub nontrivial: u64,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
}

pub struct Case {
    pub rng: Rng,
    pub thorough: bool,
    counters: BTreeMap<&'static str, u64>,
    distinct: HashSet<u64>,
    distinct_overflow: u64,
    samples: Vec<String>,
    sample_budget: usize,
    pub idx: u64,
    /// run inside another workload: no threads
    pub solo: bool,
}
impl Case {
    /// Count an observed event.
    pub fn ev(&mut self, name: &'static str) {
        *self.counters.entry(name).or_insert(0) += 1;
    }
    pub fn evn(&mut self, name: &'static str, n: u64) {
        *self.counters.entry(name).or_insert(0) += n;
    }
    /// Register the case as non-trivial, identified by its content.
    pub fn nontrivial<T: Hash + ?Sized>(&mut self, t: &T) {
        if self.distinct.len() < 1_500_000 {
            self.distinct.insert(hash_of(t));
        } else {
            self.distinct_overflow += 1;
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.sample_budget > 0 && self.rng.chance(1, 20) {
            self.sample_budget -= 1;
            let mut s = f();
            if s.len() > 500 {
                let mut k = 500;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
            }
            self.samples.push(s);
        }
    }
}

pub enum Kind {
    Random(fn(&mut Case) -> R),
    /// count, function over index; runs every index once (strided over threads)
    Exhaustive(fn(bool) -> u64, fn(&mut Case, u64) -> R),
}
pub struct Sub {
    pub name: &'static str,
    pub kind: Kind,
    pub weight: u32,
}
pub fn random(name: &'static str, weight: u32, f: fn(&mut Case) -> R) -> Sub {
    Sub { name, kind: Kind::Random(f), weight }
}
pub fn exhaustive(name: &'static str, count: fn(bool) -> u64, f: fn(&mut Case, u64) -> R) -> Sub {
    Sub { name, kind: Kind::Exhaustive(count, f), weight: 0 }
}

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Sub>,
    pub quick_secs: f64,
    pub thorough_secs: f64,
    pub stack_mb: usize,
}

#[derive(Clone, Debug)]
pub struct Found {
    pub sub: String,
    pub seed: u64,
    pub idx: u64,
    pub sig: String,
    pub msg: String,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = RefCell::new(None);
    static QUIET: RefCell<bool> = RefCell::new(false);
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}:{}", l.file(), l.line(), l.column()))
            .unwrap_or_default();
        let p = info.payload();
        let m = if let Some(s) = p.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = p.downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let _ = LAST_PANIC.try_with(|l| *l.borrow_mut() = Some(format!("{m} at {loc}")));
        if std::env::var_os("HARNESS_SHOW_PANICS").is_some() {
            eprintln!("panic: {m} at {loc}\n{}", std::backtrace::Backtrace::force_capture());
        }
    }));
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|l| l.borrow_mut().take()).unwrap_or_default()
}
/// Run library code; a panic becomes Err(description).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(t) => Ok(t),
        Err(_) => Err(last_panic()),
    }
}

pub fn case_seed(seed: u64, sub: &str, idx: u64) -> u64 {
    mix(seed ^ hash_of(sub)).wrapping_add(mix(idx ^ 0xABCDEF))
}

fn run_one(c: &mut Case, sub: &Sub, idx: u64, seed: u64) -> R {
    c.rng = Rng::new(seed);
    c.idx = idx;
    let r = catch_unwind(AssertUnwindSafe(|| match &sub.kind {
        Kind::Random(f) => f(c),
        Kind::Exhaustive(_, f) => f(c, idx),
    }));
    match r {
        Ok(r) => r,
        Err(_) => {
            let p = last_panic();
            Err(Fail { sig: format!("panic: {p}"), msg: format!("panicked: {p}") })
        }
    }
}

pub fn replay(prop: &Prop, sub: &str, idx: u64, seed: u64, thorough: bool) -> Option<R> {
    let sub = prop.subs.iter().find(|s| s.name == sub)?;
    let mut c = new_case(thorough);
    Some(run_one(&mut c, sub, idx, seed))
}

/// Run one case of a workload by itself, keeping nothing of what it recorded.
pub fn run_alone(sub: &Sub, seed: u64, thorough: bool) -> R {
    let mut c = new_case(thorough);
    c.solo = true;
    run_one(&mut c, sub, 0, seed)
}
/// Slow instrumentation (an interpreter): keep inputs small.
pub fn small() -> bool {
    thread_local!(static S: bool = std::env::var_os("HARNESS_SMALL").is_some());
    S.with(|s| *s)
}

fn new_case(thorough: bool) -> Case {
    Case {
        rng: Rng::new(0),
        thorough,
        counters: BTreeMap::new(),
        distinct: HashSet::new(),
        distinct_overflow: 0,
        samples: Vec::new(),
        sample_budget: 3,
        idx: 0,
        solo: false,
    }
}

struct Slot {
    // 1 + case index while running, 0 when idle
    busy: AtomicU64,
    seed: AtomicU64,
    sub: AtomicU64,
    cpu_start: AtomicU64,
    tid: AtomicU64,
}

pub struct RunOut {
    pub stats: Stats,
    pub found: Vec<Found>,
    pub hang: Option<Found>,
    pub per_sub: BTreeMap<String, u64>,
}

fn gettid() -> u64 {
    // the thread's own directory entry
    std::fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name().map(|s| s.to_string_lossy().into_owned()))
        .and_then(|s| s.parse().ok())
        .unwrap_or(0)
}
fn thread_cpu_ns(tid: u64) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/schedstat")).ok()?;
    s.split_whitespace().next()?.parse().ok()
}

/// Per-case CPU limit (seconds) after which a case counts as a hang.
pub const HANG_CPU_SECS: u64 = 90;

pub fn run(prop: &Prop, thorough: bool, seed: u64, slot_path: &str, known: &(dyn Fn(&str) -> bool + Sync), known_sink: &Mutex<BTreeMap<String, String>>, budget: f64, threads: usize) -> RunOut
where
{
    let stop = Arc::new(AtomicBool::new(false));
    let found: Arc<Mutex<Vec<Found>>> = Arc::new(Mutex::new(Vec::new()));
    let slots: Arc<Vec<Slot>> = Arc::new(
        (0..threads)
            .map(|_| Slot {
                busy: AtomicU64::new(0),
                seed: AtomicU64::new(0),
                sub: AtomicU64::new(0),
                cpu_start: AtomicU64::new(0),
                tid: AtomicU64::new(0),
            })
            .collect(),
    );
    // HARNESS_PART=k/n: only every n-th workload, from the k-th
    let part: Option<(usize, usize)> = std::env::var("HARNESS_PART").ok().and_then(|p| p.split_once('/').and_then(|(a, b)| Some((a.parse().ok()?, b.parse().ok()?))));
    let mine = |i: usize| part.map_or(true, |(k, n)| i % n == k);
    let total_weight: u32 = prop.subs.iter().enumerate().filter(|(i, _)| mine(*i)).map(|(_, s)| s.weight).sum::<u32>().max(1);
    let mut stats = Stats::default();
    let mut per_sub = BTreeMap::new();
    let hang: Arc<Mutex<Option<Found>>> = Arc::new(Mutex::new(None));
    let done = AtomicBool::new(false);
    let distinct_all: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    let slot_file = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(slot_path).expect("slot file");
    let known_names: Vec<&str> = prop.subs.iter().map(|s| s.name).collect();

    std::thread::scope(|sc| {
        // CPU-time watchdog
        {
            let slots = slots.clone();
            let hang = hang.clone();
            let done = &done;
            let known_names = &known_names;
            sc.spawn(move || loop {
                std::thread::sleep(Duration::from_millis(500));
                if done.load(Ordering::Relaxed) {
                    return;
                }
                for s in slots.iter() {
                    let busy = s.busy.load(Ordering::Acquire);
                    if busy == 0 {
                        continue;
                    }
                    let tid = s.tid.load(Ordering::Relaxed);
                    if let Some(cpu) = thread_cpu_ns(tid) {
                        // first observation of this case: remember the CPU time
                        let key = busy;
                        let prev = s.cpu_start.load(Ordering::Relaxed);
                        if prev == 0 {
                            s.cpu_start.store(cpu.max(1), Ordering::Relaxed);
                        } else if !small() && cpu.saturating_sub(prev) > HANG_CPU_SECS * 1_000_000_000
                            && s.busy.load(Ordering::Acquire) == key
                        {
                            let f = Found {
                                sub: known_names[s.sub.load(Ordering::Relaxed) as usize].to_string(),
                                seed: s.seed.load(Ordering::Relaxed),
                                idx: busy - 1,
                                sig: "hang".into(),
                                msg: format!("one case used more than {HANG_CPU_SECS} s of CPU time without finishing"),
                            };
                            *hang.lock().unwrap() = Some(f.clone());
                            // The thread cannot be stopped: report and leave.
                            println!("@HANG {} {} {}", f.sub, f.seed, f.idx);
                            let _ = std::io::stdout().flush();
                            std::process::exit(71);
                        }
                    }
                }
            });
        }
        for (si, sub) in prop.subs.iter().enumerate() {
            if stop.load(Ordering::Relaxed) {
                break;
            }
            if !mine(si) {
                continue;
            }
            let next = AtomicU64::new(0);
            let limit = match &sub.kind {
                Kind::Exhaustive(n, _) => n(thorough),
                Kind::Random(_) => u64::MAX,
            };
            let secs = budget * sub.weight as f64 / total_weight as f64;
            let deadline = Instant::now() + Duration::from_secs_f64(if limit == u64::MAX { secs } else { 100000.0 });
            let results: Mutex<Vec<Case>> = Mutex::new(Vec::new());
            let evals = AtomicU64::new(0);
            std::thread::scope(|s2| {
                for t in 0..threads {
                    let next = &next;
                    let results = &results;
                    let stop = stop.clone();
                    let found = found.clone();
                    let slots = slots.clone();
                    let evals = &evals;
                    let slot_file = &slot_file;
                    std::thread::Builder::new()
                        .stack_size(prop.stack_mb << 20)
                        .spawn_scoped(s2, move || {
                            let mut c = new_case(thorough);
                            let slot = &slots[t];
                            slot.tid.store(gettid(), Ordering::Relaxed);
                            slot.sub.store(si as u64, Ordering::Relaxed);
                            let mut known_here: BTreeMap<String, String> = BTreeMap::new();
                            loop {
                                if stop.load(Ordering::Relaxed) {
                                    break;
                                }
                                let idx = next.fetch_add(1, Ordering::Relaxed);
                                if idx >= limit || (limit == u64::MAX && Instant::now() > deadline) {
                                    break;
                                }
                                let cs = case_seed(seed, sub.name, idx);
                                slot.seed.store(cs, Ordering::Relaxed);
                                slot.cpu_start.store(0, Ordering::Relaxed);
                                slot.busy.store(idx + 1, Ordering::Release);
                                let line = format!("{:>3} {:>20} {:>20} {:<30}\n", si, cs, idx, sub.name);
                                {
                                    use std::os::unix::fs::FileExt;
                                    let _ = slot_file.write_all_at(line.as_bytes(), (t * 80) as u64);
                                }
                                let r = run_one(&mut c, sub, idx, cs);
                                slot.busy.store(0, Ordering::Release);
                                evals.fetch_add(1, Ordering::Relaxed);
                                if let Err(f) = r {
                                    if known_here.contains_key(&f.sig) {
                                        continue;
                                    }
                                    if known(&f.sig) {
                                        known_here.insert(f.sig, f.msg);
                                        continue;
                                    }
                                    found.lock().unwrap().push(Found {
                                        sub: sub.name.to_string(),
                                        seed: cs,
                                        idx,
                                        sig: f.sig,
                                        msg: f.msg,
                                    });
                                    stop.store(true, Ordering::Relaxed);
                                    break;
                                }
                            }
                            known_sink.lock().unwrap().extend(known_here);
                            results.lock().unwrap().push(c);
                        })
                        .unwrap();
                }
            });
            let n = evals.load(Ordering::Relaxed);
            per_sub.insert(sub.name.to_string(), n);
            stats.evals += n;
            for c in results.into_inner().unwrap() {
                for (k, v) in c.counters {
                    *stats.counters.entry(format!("{}/{}", sub.name, k)).or_insert(0) += v;
                }
                let mut d = distinct_all.lock().unwrap();
                let salt = hash_of(sub.name);
                d.extend(c.distinct.into_iter().map(|h| h ^ salt));
                if stats.samples.len() < 60 {
                    stats.samples.extend(c.samples.into_iter().map(|s| format!("{}: {}", sub.name, s)));
                }
            }
        }
        done.store(true, Ordering::Relaxed);
    });
    stats.nontrivial = distinct_all.into_inner().unwrap().len() as u64;
    stats.samples.truncate(12);
    let found = found.lock().unwrap().clone();
    let hang = hang.lock().unwrap().clone();
    RunOut { stats, found, hang, per_sub }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
