//! Exploration engine: deterministic, exhaustive enumeration of indexed cases over all cores,
//! with panic capture, a hang watchdog, counters, replay of one case, and evidence output.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;

pub type K = [u8; 32];
pub type V = Vec<u8>;
/// A violation: what failed, as text.
pub type R<T = ()> = Result<T, String>;

#[macro_export]
macro_rules! ck {
    ($cond:expr, $($fmt:tt)*) => { if !$cond { return Err(format!($($fmt)*)); } };
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Default)]
pub struct Stats {
    pub c: BTreeMap<&'static str, u64>,
    pub states: HashSet<u64>,
    pub known: Vec<String>,
    /// For the watchdog.
    ticks: Arc<AtomicU64>,
}
impl Stats {
    #[inline]
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.c.entry(k).or_insert(0) += n;
        self.ticks.fetch_add(1, Ordering::Relaxed);
    }
    pub fn state(&mut self, fp: u64) {
        self.states.insert(fp);
    }
    /// Notes that a finding was met; false if known_findings.txt doesn't list it.
    pub fn known(&mut self, property: &str, k: &'static str) -> bool {
        static LIST: std::sync::OnceLock<String> = std::sync::OnceLock::new();
        let list = LIST.get_or_init(|| std::fs::read_to_string(format!("{}/known_findings.txt", crate::verif_dir())).unwrap_or_default());
        let line = format!("KNOWN-FINDING: property={property} {k}");
        if !list.lines().any(|l| l == line) {
            return false;
        }
        self.add("known finding met", 1);
        if !self.known.iter().any(|x| x == k) {
            self.known.push(k.into());
        }
        true
    }
    fn merge(&mut self, o: Stats) {
        for (k, v) in o.c {
            *self.c.entry(k).or_insert(0) += v;
        }
        self.states.extend(o.states);
        self.known.extend(o.known);
    }
}

pub struct Violation {
    pub family: String,
    pub case: usize,
    pub msg: String,
    pub detail: String,
}

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub threads: usize,
    pub replay: Option<(String, usize)>,
    pub total: Mutex<Stats>,
    pub viol: Mutex<Option<Violation>>,
    pub stop: AtomicBool,
    /// The time of the quick tier ran out.
    pub cut: AtomicBool,
    pub samples: Mutex<Vec<String>>,
    pub families: Mutex<Vec<(String, usize, f64)>>,
    pub notes: Mutex<Vec<String>>,
    pub start: Instant,
    pub only: Option<String>,
    /// Put before the names of families, where a check is made of several.
    pub part: Mutex<&'static str>,
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static DETAIL: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Remember a description of what is being executed, for the replay file.
pub fn detail(f: impl FnOnce() -> String) {
    DETAIL.with(|d| *d.borrow_mut() = f());
}
pub fn take_detail() -> String {
    DETAIL.with(|d| d.borrow().clone())
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("panic at {loc}: {msg}"));
    }));
}

/// Runs `f`, turning a panic into Err(text).
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

const HANG_SECS: u64 = 120;
/// The quick tier must give an answer within 900 s even on a slow machine: after this many seconds
/// it starts no further case, and its evidence says that it is not exhaustive.
const QUICK_SECS: u64 = 660;

impl Ctx {
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    /// Picks by tier.
    pub fn t<T>(&self, q: T, th: T) -> T {
        if self.thorough() {
            th
        } else {
            q
        }
    }
    pub fn sample(&self, s: impl FnOnce() -> String) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 12 {
            v.push(s());
        }
    }

    /// Explores cases 0..n of a family, every one of them, in parallel.
    pub fn family(&self, name: &str, n: usize, f: impl Fn(usize, &mut Stats) -> R + Sync) {
        if self.stop.load(Ordering::SeqCst) {
            return;
        }
        let name = &format!("{}{name}", self.part.lock().unwrap());
        if let Some(o) = &self.only {
            if !name.contains(o.as_str()) {
                return;
            }
        }
        if let Some((fam, case)) = &self.replay {
            if fam != name {
                return;
            }
            let mut st = Stats::default();
            self.one(name, *case, &f, &mut st);
            return;
        }
        let t0 = Instant::now();
        let next = AtomicUsize::new(0);
        let nthreads = self.threads.min(n.max(1));
        // the case in work and a count of what was done so far
        let beats: Vec<(Arc<AtomicU64>, AtomicU64)> = (0..nthreads)
            .map(|_| (Arc::new(AtomicU64::new(0)), AtomicU64::new(u64::MAX)))
            .collect();
        let done = AtomicUsize::new(0);
        std::thread::scope(|s| {
            for t in 0..nthreads {
                let (next, beats, done, f) = (&next, &beats, &done, &f);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        let mut st = Stats { ticks: beats[t].0.clone(), ..Stats::default() };
                        loop {
                            if self.stop.load(Ordering::Relaxed) {
                                break;
                            }
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= n {
                                break;
                            }
                            if !self.thorough() && self.start.elapsed().as_secs() > QUICK_SECS {
                                self.cut.store(true, Ordering::Relaxed);
                                break;
                            }
                            beats[t].1.store(i as u64, Ordering::Relaxed);
                            self.one(name, i, f, &mut st);
                        }
                        beats[t].1.store(u64::MAX, Ordering::Relaxed);
                        self.total.lock().unwrap().merge(st);
                        done.fetch_add(1, Ordering::SeqCst);
                    })
                    .unwrap();
            }
            // Watchdog: minutes without a single evaluation are a hang (they take milliseconds).
            let (beats, done) = (&beats, &done);
            s.spawn(move || {
                let mut seen = vec![(0, 0, 0); nthreads];
                while done.load(Ordering::SeqCst) < nthreads {
                    std::thread::sleep(std::time::Duration::from_millis(20));
                    let now = self.start.elapsed().as_secs();
                    for ((b, c), seen) in beats.iter().zip(&mut seen) {
                        let (case, ticks) = (c.load(Ordering::Relaxed), b.load(Ordering::Relaxed));
                        if (case, ticks) != (seen.0, seen.1) {
                            *seen = (case, ticks, now);
                        }
                        if case != u64::MAX && now > seen.2 + HANG_SECS {
                            let v = Violation {
                                family: name.to_string(),
                                case: case as usize,
                                msg: format!("no progress for {HANG_SECS} s: hang"),
                                detail: String::new(),
                            };
                            crate::report_violation(self, &v);
                            std::process::exit(1);
                        }
                    }
                }
            });
        });
        if std::env::var("JMTMC_VERBOSE").is_ok() {
            eprintln!("  {:7.2}s {n:8} cases  {name}", t0.elapsed().as_secs_f64());
        }
        self.families.lock().unwrap().push((
            name.to_string(),
            n,
            t0.elapsed().as_secs_f64(),
        ));
    }

    fn one(&self, name: &str, i: usize, f: &impl Fn(usize, &mut Stats) -> R, st: &mut Stats) {
        detail(String::new);
        st.add("cases", 1);
        let r = match no_panic(|| f(i, st)) {
            Ok(r) => r,
            Err(p) => Err(p),
        };
        if let Err(msg) = r {
            let mut v = self.viol.lock().unwrap();
            // keep the smallest case index, so that reports are stable
            let better = match &*v {
                None => true,
                Some(o) => o.family == name && i < o.case,
            };
            if better {
                *v = Some(Violation {
                    family: name.to_string(),
                    case: i,
                    msg,
                    detail: {
                        let d = take_detail();
                        if d.is_empty() { crate::world::history_text() } else { d }
                    },
                });
            }
            self.stop.store(true, Ordering::SeqCst);
        }
    }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
/// Short rendering of a key: run-length of nibbles.
pub fn kx(k: &K) -> String {
    let h = hex(k);
    let b: Vec<char> = h.chars().collect();
    let mut out = String::new();
    let mut i = 0;
    while i < b.len() {
        let mut j = i;
        while j < b.len() && b[j] == b[i] {
            j += 1;
        }
        if j - i > 4 {
            out.push_str(&format!("{}*{}.", b[i], j - i));
        } else {
            for c in &b[i..j] {
                out.push(*c);
            }
        }
        i = j;
    }
    out
}

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, bytes: &[u8]) {
        for c in bytes.chunks(8) {
            let mut b = [0u8; 8];
            b[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(b));
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
}
pub type FxBuild = std::hash::BuildHasherDefault<Fx>;
pub fn fp<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = Fx::default();
    t.hash(&mut h);
    h.finish()
}
