//! Harness core: deterministic generator, per-case isolation, verdicts, evidence.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

// ---------------------------------------------------------------- allocator
/// Counts requests; when a case arms a cap, one request over it aborts the
/// process (the parent turns the abort into a verdict after reproducing it).
pub struct CapAlloc;
thread_local! {
    static CAP: Cell<usize> = const { Cell::new(usize::MAX) };
    static PEAK: Cell<usize> = const { Cell::new(0) };
}
unsafe impl GlobalAlloc for CapAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n);
        System.realloc(p, l, n)
    }
}
fn note(size: usize) {
    if size < 4096 {
        return;
    }
    let _ = PEAK.try_with(|p| {
        if size > p.get() {
            p.set(size)
        }
    });
    let over = CAP.try_with(|c| size > c.get()).unwrap_or(false);
    if over {
        let msg = b"harness: allocation request over the armed cap\n";
        unsafe {
            libc::write(2, msg.as_ptr() as *const _, msg.len());
            libc::abort();
        }
    }
}
pub fn with_alloc_cap<T>(cap: usize, f: impl FnOnce() -> T) -> T {
    struct Reset(usize);
    impl Drop for Reset {
        fn drop(&mut self) {
            CAP.with(|c| c.set(self.0));
        }
    }
    let old = CAP.with(|c| c.replace(cap));
    let _r = Reset(old);
    f()
}
pub fn reset_peak() {
    PEAK.with(|p| p.set(0));
}
pub fn peak() -> usize {
    PEAK.with(|p| p.get())
}

// ---------------------------------------------------------------- rng
#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E3779B97F4A7C15);
        r.u64();
        r
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn u32(&mut self) -> u32 {
        self.u64() as u32
    }
    pub fn i32(&mut self) -> i32 {
        match self.below(6) {
            0 => *self.pick(&[0, 1, -1, i32::MAX, i32::MIN, 2, 255, 256, 65535]),
            1 | 2 => self.below(100) as i32 - 50,
            _ => self.u64() as i32,
        }
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.u64() % n as u64) as usize
        }
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn bool(&mut self) -> bool {
        self.u64() & 1 == 1
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.below(s.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n);
        while v.len() + 8 <= n {
            v.extend_from_slice(&self.u64().to_le_bytes());
        }
        while v.len() < n {
            v.push(self.u64() as u8);
        }
        v
    }
    /// bytes that compress well or not
    pub fn blob(&mut self, n: usize) -> Vec<u8> {
        match self.below(4) {
            0 => self.bytes(n),
            1 => vec![self.u64() as u8; n],
            2 => {
                let p = self.range(1, 17);
                let pat = self.bytes(p);
                (0..n).map(|i| pat[i % p]).collect()
            }
            _ => (0..n).map(|_| (self.u64() & 3) as u8).collect(),
        }
    }
    pub fn f32(&mut self) -> f32 {
        match self.below(5) {
            0 => *self.pick(&[0.0, -0.0, 1.0, -1.0, f32::MAX, f32::MIN_POSITIVE, f32::INFINITY]),
            _ => (self.u64() as i32) as f32 / 1024.0,
        }
    }
    pub fn f64(&mut self) -> f64 {
        match self.below(5) {
            0 => *self.pick(&[0.0, -0.0, 1.0, -1.0, f64::MAX, f64::MIN_POSITIVE, f64::INFINITY]),
            _ => (self.u64() as i64) as f64 / 1048576.0,
        }
    }
}

pub fn fnv(data: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in data {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

// ---------------------------------------------------------------- cases
/// What the monitor observed in one execution.
#[derive(Default)]
pub struct Obs {
    /// fingerprint of the case if it was non-trivial
    pub fp: Option<u64>,
    /// behaviour classes seen
    pub classes: Vec<String>,
    /// number of monitored events (oracle comparisons)
    pub events: u64,
    pub sample: Option<String>,
}
impl Obs {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn class(&mut self, s: impl Into<String>) {
        self.classes.push(s.into());
    }
    pub fn ev(&mut self, n: u64) {
        self.events += n;
    }
    pub fn nontrivial(&mut self, data: &[u8]) {
        self.fp = Some(fnv(data));
    }
}
/// A failed oracle: `key` identifies the defect class (matched against the
/// known-findings file), `msg` is the human-readable witness.
#[derive(Debug)]
pub struct Fail {
    pub key: String,
    pub msg: String,
}
pub fn fail<T>(key: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { key: key.into(), msg: msg.into() })
}
pub type CaseRes = Result<Obs, Fail>;

thread_local! {
    static PANIC_LOC: Cell<Option<&'static str>> = const { Cell::new(None) };
    static PANIC_MSG: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        PANIC_MSG.with(|p| *p.borrow_mut() = format!("{m} at {loc}"));
    }));
}
/// Runs code under test; a panic becomes Err(message).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC_MSG.with(|p| p.borrow().clone()))
}
/// As guard, failing the case on a panic.
pub fn nopanic<T>(key: &str, what: impl FnOnce() -> String, f: impl FnOnce() -> T) -> Result<T, Fail> {
    guard(f).or_else(|m| fail(format!("{key}"), format!("panic in {}: {m}", what())))
}

// ---------------------------------------------------------------- context
const HANG_S: u64 = 120;
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}
pub struct Known {
    pub key: String,
    pub what: String,
}
pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    pub start: Instant,
    pub progress: Option<std::fs::File>,
    pub only: Option<(String, u64)>, // replay: (group, case)
    pub known: Vec<Known>,
    evals: AtomicU64,
    events: AtomicU64,
    slot: AtomicU64,
    inner: Mutex<Inner>,
}
#[derive(Default)]
struct Inner {
    fps: HashSet<u64>,
    classes: BTreeMap<String, u64>,
    groups: BTreeMap<String, u64>,
    samples: Vec<String>,
    viol: Vec<(String, u64, Fail)>,
    known_seen: BTreeMap<String, String>,
    rules: Vec<String>,
    assumptions: Vec<String>,
    truncated: Vec<String>,
    exhaustive: Vec<String>,
}
impl Ctx {
    pub fn new(prop: &str, tier: Tier, seed: u64, known: Vec<Known>) -> Self {
        Ctx {
            prop: prop.into(),
            tier,
            seed,
            start: Instant::now(),
            progress: None,
            only: None,
            known,
            evals: AtomicU64::new(0),
            events: AtomicU64::new(0),
            slot: AtomicU64::new(0),
            inner: Mutex::new(Inner::default()),
        }
    }
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    /// number of cases: quick / thorough
    pub fn n(&self, q: u64, t: u64) -> u64 {
        match self.tier {
            Tier::Quick => q,
            Tier::Thorough => t,
        }
    }
    pub fn rule(&self, s: &str) {
        self.inner.lock().unwrap().rules.push(s.into());
    }
    pub fn assume(&self, s: &str) {
        self.inner.lock().unwrap().assumptions.push(s.into());
    }
    /// Runs n cases of a group over all cores. Each case gets its own
    /// generator derived from (seed, group, case), so it replays alone.
    pub fn cases(&self, group: &str, n: u64, f: impl Fn(&mut Rng, u64) -> CaseRes + Sync) {
        if let Some((g, c)) = &self.only {
            if g == group {
                self.one(group, *c, &f);
            }
            return;
        }
        let next = AtomicU64::new(0);
        let budget = self.n(240, 2400);
        let t0 = Instant::now();
        let threads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8);
        let threads = if std::env::var("VH_THREADS").is_ok() { 1 } else { threads };
        let done = std::sync::atomic::AtomicBool::new(false);
        let active: Vec<Mutex<Option<(u64, Instant)>>> = (0..threads).map(|_| Mutex::new(None)).collect();
        let wid = AtomicU64::new(0);
        let left = AtomicU64::new(threads.min(n.max(1) as usize) as u64);
        let run = || {
            let me = wid.fetch_add(1, Ordering::SeqCst) as usize;
            let slot = self.slot.fetch_add(1, Ordering::SeqCst) % 64;
            loop {
                let c = next.fetch_add(1, Ordering::SeqCst);
                if c >= n {
                    break;
                }
                if t0.elapsed().as_secs() > budget {
                    self.inner.lock().unwrap().truncated.push(format!("{group}@{c}"));
                    break;
                }
                if self.inner.lock().unwrap().viol.len() >= 4 {
                    break;
                }
                self.note_progress(slot, group, c);
                *active[me].lock().unwrap() = Some((c, Instant::now()));
                self.one(group, c, &f);
                *active[me].lock().unwrap() = None;
            }
            self.note_progress(slot, "-", 0);
            if left.fetch_sub(1, Ordering::SeqCst) == 1 {
                done.store(true, Ordering::SeqCst);
            }
        };
        // watchdog: cases take milliseconds to seconds; one that is still running
        // after HANG_S is a non-terminating execution of the code under test
        let watch = || {
            while !done.load(Ordering::SeqCst) {
                std::thread::sleep(std::time::Duration::from_millis(20));
                for a in &active {
                    if let Some((c, t)) = *a.lock().unwrap() {
                        if t.elapsed().as_secs() >= HANG_S {
                            let e = Fail { key: "hang".into(), msg: format!("case still running after {HANG_S} s") };
                            log(&format!("violation in {group} case {c}: [hang]"));
                            self.inner.lock().unwrap().viol.push((group.into(), c, e));
                            let code = self.finish(&crate::verif_dir());
                            use std::io::Write;
                            std::io::stdout().flush().ok();
                            std::process::exit(code);
                        }
                    }
                }
            }
        };
        std::thread::scope(|s| {
            s.spawn(&watch);
            for _ in 0..threads.min(n.max(1) as usize) {
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, &run).unwrap();
            }
        });
    }
    fn note_progress(&self, slot: u64, group: &str, c: u64) {
        if let Some(f) = &self.progress {
            use std::os::unix::fs::FileExt;
            let mut line = format!("{group} {c}");
            while line.len() < 127 {
                line.push(' ');
            }
            line.push('\n');
            let _ = f.write_all_at(line.as_bytes(), slot * 128);
        }
    }
    fn one(&self, group: &str, c: u64, f: &(impl Fn(&mut Rng, u64) -> CaseRes + Sync)) {
        let mut rng = Rng::new(
            self.seed.wrapping_mul(0x100000001b3) ^ fnv(group.as_bytes()) ^ c.wrapping_mul(0xD6E8FEB86659FD93),
        );
        let r = catch_unwind(AssertUnwindSafe(|| f(&mut rng, c))).unwrap_or_else(|_| {
            Err(Fail {
                key: "panic".into(),
                msg: format!("panic: {}", PANIC_MSG.with(|p| p.borrow().clone())),
            })
        });
        self.evals.fetch_add(1, Ordering::Relaxed);
        let mut i = self.inner.lock().unwrap();
        *i.groups.entry(group.into()).or_default() += 1;
        match r {
            Ok(o) => {
                self.events.fetch_add(o.events, Ordering::Relaxed);
                if let Some(fp) = o.fp {
                    i.fps.insert(fp ^ fnv(group.as_bytes()));
                }
                for k in o.classes {
                    *i.classes.entry(k).or_default() += 1;
                }
                if let Some(s) = o.sample {
                    if i.samples.len() < 12 && !i.samples.iter().any(|x| x.starts_with(&format!("{group}:"))) {
                        i.samples.push(format!("{group}: case {c}: {s}"));
                    }
                }
            }
            Err(e) if std::env::var("VH_MEASURE").is_ok() => {
                // development aid: tally failures instead of stopping at them
                let n = i.classes.entry(format!("FAIL {}", e.key)).or_default();
                *n += 1;
                if *n == 1 {
                    log(&format!("{group}/{c} [{}] {}", e.key, e.msg));
                }
            }
            Err(e) => {
                if let Some(k) = self.known.iter().find(|k| k.key == e.key) {
                    i.known_seen.entry(k.key.clone()).or_insert_with(|| k.what.clone());
                    *i.classes.entry(format!("known-finding:{}", k.key)).or_default() += 1;
                } else {
                    log(&format!("violation in {group} case {c}: [{}] {}", e.key, e.msg));
                    if i.viol.len() < 8 {
                        i.viol.push((group.into(), c, e));
                    }
                }
            }
        }
    }
    pub fn exhaustive(&self, what: &str) {
        self.inner.lock().unwrap().exhaustive.push(what.into());
    }
    /// Writes evidence, prints verdict lines, returns the exit code.
    pub fn finish(&self, verif: &str) -> i32 {
        let i = self.inner.lock().unwrap();
        if self.only.is_some() {
            return if i.viol.is_empty() { 0 } else { 1 };
        }
        let wall = self.start.elapsed().as_secs_f64();
        let tier = if self.quick() { "quick" } else { "thorough" };
        let mut cov = serde_json::json!({
            "evaluations": self.evals.load(Ordering::SeqCst),
            "distinct_nontrivial": i.fps.len(),
            "rule": i.rules.join(" "),
            "samples": i.samples,
            "oracle_comparisons": self.events.load(Ordering::SeqCst),
            "behaviour_classes_observed": i.classes,
            "cases_per_workload": i.groups,
        });
        if !i.truncated.is_empty() {
            cov["stopped_early_on_time"] = serde_json::json!(i.truncated);
        }
        if !i.exhaustive.is_empty() {
            cov["exhaustive_parts"] = serde_json::json!(i.exhaustive);
        }
        let ev = serde_json::json!({
            "property": self.prop, "tier": tier, "seed": self.seed, "level": "exploration",
            "coverage": cov, "wall_s": wall, "violations": i.viol.len(),
            "assumptions": i.assumptions,
        });
        let path = format!("{verif}/evidence/{}.json", self.prop);
        let _ = std::fs::create_dir_all(format!("{verif}/evidence"));
        std::fs::write(&path, serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
        for w in i.known_seen.values() {
            println!("KNOWN-FINDING: property={} {}", self.prop, w);
        }
        println!(
            "{}: {} cases, {} distinct non-trivial, {} oracle comparisons, {} classes, {:.1}s",
            self.prop,
            self.evals.load(Ordering::SeqCst),
            i.fps.len(),
            self.events.load(Ordering::SeqCst),
            i.classes.len(),
            wall
        );
        if i.viol.is_empty() {
            return 0;
        }
        for (g, c, e) in i.viol.iter() {
            let p = write_replay(verif, &self.prop, tier, self.seed, g, *c, &e.key, &e.msg);
            println!("VIOLATION property={} replay={}", self.prop, p);
        }
        1
    }
}
#[allow(clippy::too_many_arguments)]
pub fn write_replay(verif: &str, prop: &str, tier: &str, seed: u64, g: &str, c: u64, key: &str, msg: &str) -> String {
    let dir = format!("{verif}/evidence/replay");
    let _ = std::fs::create_dir_all(&dir);
    let p = format!("{dir}/{prop}-{}-{c}.json", g.replace(|c: char| !c.is_ascii_alphanumeric(), "-"));
    let v = serde_json::json!({"property":prop,"tier":tier,"seed":seed,"group":g,"case":c,"key":key,"message":msg,
        "replay_cmd": format!("/verif/bin/check --replay {p}")});
    let _ = std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap());
    p
}

// ---------------------------------------------------------------- generators
/// strings covering ASCII, wide, empty, NUL-adjacent and surrogate-pair cases
pub fn gen_string(r: &mut Rng, max: usize) -> String {
    let n = match r.below(8) {
        0 => 0,
        1 => 1,
        _ => r.below(max + 1),
    };
    let mode = r.below(5);
    (0..n)
        .map(|_| match mode {
            0 | 1 => (b' ' + r.below(95) as u8) as char,
            2 => *r.pick(&['a', 'Z', '0', '_', '/', '.', '-']),
            3 => *r.pick(&['é', 'ß', '中', '\u{7f}', '\u{80}', '\u{ff}', '\u{100}', 'Ж', 'A']),
            _ => *r.pick(&['😀', '\u{10FFFF}', '\u{FFFD}', '\u{D7FF}', '\u{E000}', 'x', '\u{1}']),
        })
        .collect()
}
pub fn gen_ident(r: &mut Rng) -> String {
    let n = r.range(1, 12);
    (0..n).map(|_| *r.pick(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_") as char).collect()
}

static LOGFD: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(2);
/// Code under test may print to stderr; keep that out of the check's output.
pub fn mute_stderr() {
    unsafe {
        let d = libc::dup(2);
        let n = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
        if d >= 0 && n >= 0 {
            libc::dup2(n, 2);
            LOGFD.store(d, Ordering::SeqCst);
        }
    }
}
pub fn log(s: &str) {
    let s = format!("{s}\n");
    unsafe {
        libc::write(LOGFD.load(Ordering::SeqCst), s.as_ptr() as *const _, s.len());
    }
}
