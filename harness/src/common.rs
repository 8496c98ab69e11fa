//! Exploration engine shared by all properties.
//!
//! A property enumerates one or more finite *spaces*; every case of a space has an index, so that
//! `space:index` replays it. Cases run on all cores inside a child process, so that a panic, stack
//! overflow, abort or hang of the code under test becomes a verdict on that case instead of an
//! error of the check.
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const SLOT: usize = 128;
pub const MAX_VIOLATIONS: usize = 12;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Debug)]
pub struct Failure {
    pub case: String,
    pub sig: String,
    pub msg: String,
    pub input: String,
}

#[derive(Default)]
pub struct Stats {
    pub states: HashSet<u64>,
    pub outcomes: HashSet<u64>,
    pub transitions: u64,
    pub compared: u64,
    pub samples: Vec<serde_json::Value>,
    pub spaces: BTreeMap<String, (u64, u64)>,
    pub fails: Vec<Failure>,
    pub notes: BTreeMap<String, u64>,
}

pub struct Ctx {
    pub id: String,
    pub tier: Tier,
    pub only: Option<(String, u64)>,
    pub stats: Mutex<Stats>,
    pub stop: AtomicBool,
    pub slots: Option<std::fs::File>,
    pub start: Instant,
    pub budget: Duration,
    pub truncated: AtomicBool,
    /// Signatures of the known findings: a failure with one of them is counted, not reported.
    pub known: Vec<(String, String)>,
    pub hit: Vec<AtomicU64>,
}

/// Per-case recorder.
pub struct Case {
    pub name: String,
    pub input: String,
    pub fails: Vec<Failure>,
    pub states: Vec<u64>,
    pub outcomes: Vec<u64>,
    pub transitions: u64,
    pub compared: u64,
    pub sample: Option<serde_json::Value>,
    pub notes: Vec<String>,
    pub verbose: bool,
}

pub fn h<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut s = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}

impl Case {
    /// Registers the input (state) that is explored next; it is what a replay file shows.
    pub fn state(&mut self, input: &str) {
        self.input.clear();
        self.input.push_str(input);
        self.states.push(h(input));
    }
    /// One execution of the code under test.
    pub fn step(&mut self) {
        self.transitions += 1;
    }
    pub fn steps(&mut self, n: u64) {
        self.transitions += n;
    }
    /// One comparison between the reference model and the implementation.
    pub fn cmp(&mut self) {
        self.compared += 1;
    }
    pub fn outcome<T: Hash + ?Sized>(&mut self, t: &T) {
        self.outcomes.push(h(t));
    }
    pub fn note(&mut self, s: impl Into<String>) {
        self.notes.push(s.into());
    }
    pub fn fail(&mut self, msg: impl Into<String>) {
        let msg = msg.into();
        let sig = format!("{} | {}", self.input, msg);
        self.fail_sig(sig, msg)
    }
    pub fn fail_sig(&mut self, sig: impl Into<String>, msg: impl Into<String>) {
        let f = Failure { case: self.name.clone(), sig: sig.into(), msg: msg.into(), input: self.input.clone() };
        if self.verbose {
            println!("FAIL {}\n--- input\n{}\n--- message\n{}\n", f.case, f.input, f.msg);
        }
        self.fails.push(f);
    }
    pub fn check(&mut self, cond: bool, msg: impl FnOnce() -> String) {
        self.compared += 1;
        if !cond {
            self.fail(msg());
        }
    }
}

thread_local! {
    pub static PANIC_INFO: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if std::env::var_os("MC_BT").is_some() { format!("{info}\n{}", std::backtrace::Backtrace::force_capture()) } else { info.to_string() };
        PANIC_INFO.with(|p| *p.borrow_mut() = msg);
    }));
}

/// Runs `f`, turning a panic into `Err(description)`.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC_INFO.with(|p| p.borrow().clone()))
}

pub fn workers() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)
}

impl Ctx {
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    /// `q` in the quick tier, `t` in the thorough tier.
    pub fn pick<T>(&self, q: T, t: T) -> T {
        if self.quick() { q } else { t }
    }

    /// Exhaustively explores the `n` cases of a space.
    pub fn explore<F>(&self, space: &str, n: u64, f: F)
    where
        F: Fn(u64, &mut Case) + Sync,
    {
        self.explore_w(space, n, workers(), f)
    }

    pub fn explore_w<F>(&self, space: &str, n: u64, nworkers: usize, f: F)
    where
        F: Fn(u64, &mut Case) + Sync,
    {
        if let Some((s, _)) = &self.only {
            if s != space {
                return;
            }
        }
        // Independence of formatting: the largest spaces are left to the thorough tier.
        if n > 16_000 && self.quick() && crate::rules::MODE.load(Ordering::Relaxed) == 3 {
            return;
        }
        let next = AtomicU64::new(0);
        let done = AtomicU64::new(0);
        let nw = if self.only.is_some() { 1 } else { nworkers };
        let beats: Vec<AtomicU64> = (0..nw).map(|_| AtomicU64::new(0)).collect();
        let finished = AtomicBool::new(false);
        std::thread::scope(|sc| {
            let mut hs = vec![];
            for w in 0..nw {
                let (next, done, f, beat) = (&next, &done, &f, &beats[w]);
                hs.push(
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn_scoped(sc, move || {
                            let mut local = Stats::default();
                            loop {
                                if self.stop.load(Ordering::Relaxed) {
                                    break;
                                }
                                let mut i = next.fetch_add(1, Ordering::Relaxed);
                                if let Some((_, k)) = &self.only {
                                    if i > 0 {
                                        break;
                                    }
                                    i = *k;
                                }
                                if i >= n {
                                    break;
                                }
                                if self.start.elapsed() > self.budget && self.only.is_none() {
                                    self.truncated.store(true, Ordering::Relaxed);
                                    break;
                                }
                                let name = format!("{space}:{i}");
                                self.write_slot(w, &name);
                                beat.store(self.start.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
                                let mut case = Case {
                                    name,
                                    input: String::new(),
                                    fails: vec![],
                                    states: vec![],
                                    outcomes: vec![],
                                    transitions: 0,
                                    compared: 0,
                                    sample: None,
                                    notes: vec![],
                                    verbose: self.only.is_some(),
                                };
                                let r = catch_unwind(AssertUnwindSafe(|| f(i, &mut case)));
                                if r.is_err() {
                                    let info = PANIC_INFO.with(|p| p.borrow().clone());
                                    if info.contains("harness bug") {
                                        println!("harness error in {}: {info}", case.name);
                                        std::process::exit(2);
                                    }
                                    case.fail(format!("panicked: {info}"));
                                }
                                beat.store(0, Ordering::Relaxed);
                                done.fetch_add(1, Ordering::Relaxed);
                                if case.states.is_empty() && !case.input.is_empty() {
                                    let s = case.input.clone();
                                    case.states.push(h(&s));
                                }
                                local.states.extend(case.states.drain(..));
                                local.outcomes.extend(case.outcomes.drain(..));
                                local.transitions += case.transitions;
                                local.compared += case.compared;
                                for n in case.notes.drain(..) {
                                    *local.notes.entry(n).or_default() += 1;
                                }
                                if local.samples.len() < 2 || (i % 997 == 0 && local.samples.len() < 4) {
                                    local.samples.push(case.sample.take().unwrap_or_else(|| {
                                        serde_json::json!({"case": case.name, "input": trunc(&case.input, 1500)})
                                    }));
                                }
                                case.fails.retain(|f| match self.known.iter().position(|(s, _)| *s == f.sig) {
                                    Some(k) => {
                                        self.hit[k].fetch_add(1, Ordering::Relaxed);
                                        false
                                    }
                                    None => true,
                                });
                                if !case.fails.is_empty() {
                                    local.fails.append(&mut case.fails);
                                    if local.fails.len() > 40 {
                                        break;
                                    }
                                }
                            }
                            self.clear_slot(w);
                            local
                        })
                        .unwrap(),
                );
            }
            let (beats, finished) = (&beats, &finished);
            let dog = sc.spawn(move || {
                while !finished.load(Ordering::Relaxed) {
                    std::thread::sleep(Duration::from_millis(20));
                    let now = self.start.elapsed().as_millis() as u64;
                    for b in beats {
                        let t = b.load(Ordering::Relaxed);
                        if t != 0 && now > t + 45_000 {
                            std::process::exit(77);
                        }
                    }
                }
            });
            for h in hs {
                let local = h.join().expect("harness bug: worker");
                let mut s = self.stats.lock().unwrap();
                s.states.extend(local.states);
                s.outcomes.extend(local.outcomes);
                s.transitions += local.transitions;
                s.compared += local.compared;
                if s.samples.len() < 6 {
                    s.samples.extend(local.samples.into_iter().take(2));
                }
                for (k, v) in local.notes {
                    *s.notes.entry(k).or_default() += v;
                }
                s.fails.extend(local.fails);
            }
            finished.store(true, Ordering::Relaxed);
            dog.join().unwrap();
        });
        let d = done.load(Ordering::Relaxed);
        let mut s = self.stats.lock().unwrap();
        s.fails.sort_by(|a, b| case_key(&a.case).cmp(&case_key(&b.case)));
        s.spaces.insert(space.to_owned(), (n, d));
        println!(
            "[{}] {space}: {d}/{n} cases, {} states, {} transitions, {} outcomes, {} failures, {:.1}s",
            self.id, s.states.len(), s.transitions, s.outcomes.len(), s.fails.len(), self.start.elapsed().as_secs_f32()
        );
    }

    fn write_slot(&self, w: usize, name: &str) {
        if let Some(f) = &self.slots {
            let mut buf = [b' '; SLOT];
            let b = name.as_bytes();
            let l = b.len().min(SLOT - 1);
            buf[..l].copy_from_slice(&b[..l]);
            buf[SLOT - 1] = b'\n';
            let _ = f.write_at(&buf, (w * SLOT) as u64);
        }
    }
    fn clear_slot(&self, w: usize) {
        self.write_slot(w, "-");
    }
}

fn case_key(c: &str) -> (String, u64) {
    let (a, b) = c.rsplit_once(':').unwrap_or((c, "0"));
    (a.to_owned(), b.parse().unwrap_or(0))
}

pub fn trunc(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_owned();
    }
    let mut k = n;
    while !s.is_char_boundary(k) {
        k -= 1;
    }
    format!("{}...", &s[..k])
}

/// Mixed-radix decoding of a case index, least significant digit first.
pub struct Digits(pub u64);
impl Digits {
    pub fn take(&mut self, n: usize) -> usize {
        let d = (self.0 % n as u64) as usize;
        self.0 /= n as u64;
        d
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let k = self.take(xs.len());
        &xs[k]
    }
}

pub fn product(dims: &[usize]) -> u64 {
    dims.iter().map(|d| *d as u64).product()
}

/// Number of sequences of length `0..=max` over `k` symbols.
pub fn seq_count(k: u64, max: u32) -> u64 {
    (0..=max).map(|l| k.pow(l)).sum()
}

/// Decodes sequence number `i` (shortest first).
pub fn seq_decode(mut i: u64, k: u64) -> Vec<usize> {
    let mut len = 0;
    while i >= k.pow(len) {
        i -= k.pow(len);
        len += 1;
    }
    let mut v = vec![0usize; len as usize];
    for slot in v.iter_mut().rev() {
        *slot = (i % k) as usize;
        i /= k;
    }
    v
}

/// Offsets of all char boundaries.
pub fn boundaries(s: &str) -> Vec<usize> {
    (0..=s.len()).filter(|i| s.is_char_boundary(*i)).collect()
}
