//! Exploration engine: counters, parallel exhaustive enumeration, violation bookkeeping, known
//! findings, evidence and replay files, crash supervision.
use std::{
    cell::{Cell, RefCell},
    collections::{BTreeMap, HashSet},
    fmt::Debug,
    panic::{catch_unwind, AssertUnwindSafe},
    path::PathBuf,
    sync::{
        atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed},
        Mutex,
    },
    time::{Duration, Instant},
};

use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// A listed known finding.
#[derive(Deserialize, Clone)]
pub struct Known {
    pub property: String,
    pub key: String,
    pub what: String,
}

#[derive(Deserialize, Default)]
pub struct KnownFile {
    #[serde(default)]
    pub known: Vec<Known>,
    #[serde(default)]
    #[allow(dead_code)]
    pub fixed: Vec<String>,
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Replay {
    pub property: String,
    pub tier: String,
    pub key: String,
    pub detail: String,
}

pub struct Ctx {
    pub prop: &'static str,
    pub tier: Tier,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    outcomes: Mutex<BTreeMap<String, u64>>,
    parts: Mutex<BTreeMap<String, u64>>,
    samples: Mutex<Vec<String>>,
    violations: Mutex<BTreeMap<(usize, String), String>>,
    nviol: AtomicU64,
    known: Vec<Known>,
    /// End at the first violation (MC_FIRST, for tries).
    first: bool,
    known_hit: Mutex<HashSet<String>>,
    only: Option<String>,
    start: Instant,
    threads: usize,
    capped: AtomicBool,
}

thread_local! {
    static IN_CASE: Cell<bool> = const { Cell::new(false) };
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
}

/// What each worker is doing now, for the hang watchdog and crash reports.
struct Slot {
    since: AtomicU64,
    what: Mutex<String>,
}
static SLOTS: [Slot; 64] = [const {
    Slot {
        since: AtomicU64::new(0),
        what: Mutex::new(String::new()),
    }
}; 64];
static NEXT_SLOT: AtomicUsize = AtomicUsize::new(0);
static T0: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();

fn now_ms() -> u64 {
    T0.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}

pub fn verif_dir() -> PathBuf {
    std::env::var_os("MC_VERIF").map_or_else(|| PathBuf::from("/verif"), PathBuf::from)
}

/// The first panic outside a case.
static HARNESS_PANIC: Mutex<Option<String>> = Mutex::new(None);

/// Run the exploration. On the unchanged tree nothing in it panics, so a panic outside a case
/// comes from an answer of the library which no case foresaw: that is a verdict, not a failure to
/// give one. Only trouble with the machine (files, memory) is none.
pub fn explore(ctx: &Ctx, run: fn(&Ctx)) -> i32 {
    if catch_unwind(AssertUnwindSafe(|| run(ctx))).is_err() {
        let msg = HARNESS_PANIC.lock().ok().and_then(|m| m.clone()).unwrap_or_default();
        if msg.contains("os error") || msg.contains("failed to spawn") {
            return 2;
        }
        ctx.violation(
            "the exploration itself".into(),
            format!("an answer of the library which it always gave stopped the exploration: {msg}"),
        );
    }
    ctx.finish()
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_owned()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_owned()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        if IN_CASE.with(Cell::get) {
            PANIC_MSG.with(|m| *m.borrow_mut() = format!("{msg} at {loc}"));
        } else {
            eprintln!("harness panic: {msg} at {loc}");
            if let Ok(mut first) = HARNESS_PANIC.lock() {
                first.get_or_insert(format!("{msg} at {loc}"));
            }
        }
    }));
}

/// Run `f`, turning a panic into `Err`.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let prev = IN_CASE.with(|c| c.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_CASE.with(|c| c.set(prev));
    r.map_err(|_| format!("panicked: {}", PANIC_MSG.with(|m| m.borrow().clone())))
}

/// Prefix of a violation detail which means the harness itself is wrong.
const MAX_VIOLATIONS: u64 = 4000;

impl Ctx {
    pub fn new(prop: &'static str, tier: Tier) -> Self {
        let known: Vec<Known> = std::fs::read_to_string(verif_dir().join("known_findings.json"))
            .ok()
            .map(|s| serde_yaml::from_str::<KnownFile>(&s).expect("known_findings.json"))
            .unwrap_or_default()
            .known
            .into_iter()
            .filter(|k| k.property == prop)
            .collect();
        Self {
            prop,
            tier,
            states: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            traces: AtomicU64::new(0),
            outcomes: Mutex::default(),
            parts: Mutex::default(),
            samples: Mutex::default(),
            violations: Mutex::default(),
            nviol: AtomicU64::new(0),
            known,
            first: std::env::var_os("MC_FIRST").is_some(),
            known_hit: Mutex::default(),
            only: std::env::var("MC_ONLY").ok(),
            start: Instant::now(),
            threads: std::thread::available_parallelism().map_or(8, usize::from).min(16),
            capped: AtomicBool::new(false),
        }
    }

    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }

    /// `quick` or `thorough` bound.
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() {
            thorough
        } else {
            quick
        }
    }

    pub fn add_states(&self, n: u64) {
        self.states.fetch_add(n, Relaxed);
    }
    pub fn add_transitions(&self, n: u64) {
        self.transitions.fetch_add(n, Relaxed);
    }

    /// Name a part of the exploration and how much it covered.
    pub fn part(&self, name: &str, n: u64) {
        *self.parts.lock().unwrap().entry(name.to_owned()).or_default() += n;
    }

    pub fn outcome(&self, name: &str, n: u64) {
        *self.outcomes.lock().unwrap().entry(name.to_owned()).or_default() += n;
    }

    pub fn sample(&self, s: impl FnOnce() -> String) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 24 {
            let mut t = s();
            if t.len() > 300 {
                let mut n = 300;
                while !t.is_char_boundary(n) {
                    n -= 1;
                }
                t.truncate(n);
                t.push('…');
            }
            v.push(t);
        }
    }

    pub fn violation(&self, key: String, detail: String) {
        if let Some(only) = &self.only {
            if *only != key {
                return;
            }
        }
        if let Some(k) = self.known.iter().find(|k| k.key == key) {
            self.known_hit.lock().unwrap().insert(k.key.clone());
            return;
        }
        if self.first {
            println!("VIOLATION property={} replay=none\n  case: {key}\n  what: {detail}", self.prop);
            std::process::exit(1);
        }
        let n = self.nviol.fetch_add(1, Relaxed);
        let mut v = self.violations.lock().unwrap();
        v.insert((key.len(), key), detail);
        if n > MAX_VIOLATIONS && v.len() > 400 {
            v.pop_last();
        }
    }

    /// Enough violations were found: stop exploring.
    pub fn enough(&self) -> bool {
        self.only.is_none() && self.nviol.load(Relaxed) > MAX_VIOLATIONS
    }

    /// One trace validated against the implementation. `f` gives the disagreement, if any.
    pub fn case(&self, key: impl FnOnce() -> String, f: impl FnOnce() -> Result<(), String>) {
        self.traces.fetch_add(1, Relaxed);
        let slot = SLOT.with(|s| {
            if s.get() == usize::MAX {
                s.set(NEXT_SLOT.fetch_add(1, Relaxed) % 64);
            }
            s.get()
        });
        SLOTS[slot].since.store(now_ms(), Relaxed);
        let key_cell = Cell::new(Some(key));
        let r = guard(f);
        SLOTS[slot].since.store(0, Relaxed);
        match r {
            Ok(Ok(())) => {}
            Ok(Err(detail)) | Err(detail) => {
                let key = key_cell.take().expect("key")();
                self.violation(key, detail);
            }
        }
    }

    /// Describe what this thread does next, for hang and crash reports.
    pub fn doing(&self, what: impl FnOnce() -> String) {
        let slot = SLOT.with(|s| {
            if s.get() == usize::MAX {
                s.set(NEXT_SLOT.fetch_add(1, Relaxed) % 64);
            }
            s.get()
        });
        *SLOTS[slot].what.lock().unwrap() = what();
    }

    /// Enumerate `0..n` on all cores.
    pub fn par(&self, n: usize, f: impl Fn(usize) + Sync) {
        let next = AtomicUsize::new(0);
        let chunk = (n / (self.threads * 16)).clamp(1, 4096);
        std::thread::scope(|s| {
            for _ in 0..self.threads.min(n.max(1)) {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, || loop {
                        let i = next.fetch_add(chunk, Relaxed);
                        if i >= n || self.enough() {
                            break;
                        }
                        for j in i..(i + chunk).min(n) {
                            f(j);
                        }
                    })
                    .expect("spawn");
            }
        });
    }

    /// Run independent parts on all cores.
    pub fn par_fns(&self, fs: &[&(dyn Fn() + Sync)]) {
        let next = AtomicUsize::new(0);
        std::thread::scope(|s| {
            for _ in 0..self.threads.min(fs.len().max(1)) {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, || loop {
                        let i = next.fetch_add(1, Relaxed);
                        if i >= fs.len() || self.enough() {
                            break;
                        }
                        fs[i]();
                    })
                    .expect("spawn");
            }
        });
    }

    pub fn elapsed(&self) -> Duration {
        self.start.elapsed()
    }

    /// Write the evidence and report. Returns the exit code.
    pub fn finish(&self) -> i32 {
        let violations = self.violations.lock().unwrap();
        for k in &self.known {
            if self.known_hit.lock().unwrap().contains(&k.key) {
                println!("KNOWN-FINDING: property={} {}", self.prop, k.what);
            }
        }
        let mut code = 0;
        let mut shown = 0;
        let show = std::env::var("MC_SHOW").ok().and_then(|s| s.parse().ok()).unwrap_or(5);
        for ((_, key), detail) in violations.iter() {
            code = 1;
            if shown < show {
                let path = write_replay(self.prop, self.tier, key, detail, shown.min(5));
                println!("VIOLATION property={} replay={}", self.prop, path.display());
                println!("  case: {}", clip(key));
                println!("  what: {}", clip(detail));
            }
            shown += 1;
        }
        if shown > show {
            println!("  … {} more distinct failing cases recorded", shown - show);
        }
        let parts = self.parts.lock().unwrap();
        let outcomes = self.outcomes.lock().unwrap();
        let samples = self.samples.lock().unwrap();
        let ev = serde_json(&[
            ("property", J::S(self.prop.into())),
            (
                "tier",
                J::S(if self.thorough() { "thorough" } else { "quick" }.into()),
            ),
            (
                "seed",
                J::N(std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)),
            ),
            ("level", J::S("model_checking".into())),
            (
                "coverage",
                J::O(vec![
                    ("states".into(), J::N(self.states.load(Relaxed) as i64)),
                    ("transitions".into(), J::N(self.transitions.load(Relaxed).max(self.traces.load(Relaxed)) as i64)),
                    (
                        "traces_validated_against_impl".into(),
                        J::N(self.traces.load(Relaxed) as i64),
                    ),
                    ("exhaustive".into(), J::B(!self.capped.load(Relaxed) && !self.enough())),
                    (
                        "parts".into(),
                        J::O(parts.iter().map(|(k, v)| (k.clone(), J::N(*v as i64))).collect()),
                    ),
                    (
                        "observed_outcomes".into(),
                        J::O(outcomes.iter().map(|(k, v)| (k.clone(), J::N(*v as i64))).collect()),
                    ),
                    (
                        "samples".into(),
                        J::A(samples.iter().map(|s| J::S(s.clone())).collect()),
                    ),
                ]),
            ),
            (
                "assumptions",
                J::A(
                    crate::assumptions(self.prop)
                        .iter()
                        .map(|s| J::S((*s).to_owned()))
                        .collect(),
                ),
            ),
            ("wall_s", J::F(self.elapsed().as_secs_f64())),
            ("violations", J::N(violations.len() as i64)),
        ]);
        let dir = verif_dir().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(dir.join(format!("{}.json", self.prop)), ev).expect("write evidence");
        println!(
            "{}: states={} transitions={} traces={} violations={} wall={:.1}s",
            self.prop,
            self.states.load(Relaxed),
            self.transitions.load(Relaxed),
            self.traces.load(Relaxed),
            violations.len(),
            self.elapsed().as_secs_f64()
        );
        code
    }
}

fn clip(s: &str) -> String {
    if s.chars().count() > 1500 {
        s.chars().take(1500).chain("…".chars()).collect()
    } else {
        s.to_owned()
    }
    .replace('\n', "⏎")
}

pub fn write_replay(prop: &str, tier: Tier, key: &str, detail: &str, n: usize) -> PathBuf {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{prop}-{n}.json"));
    let text = serde_json(&[
        ("property", J::S(prop.into())),
        (
            "tier",
            J::S(if tier == Tier::Thorough { "thorough" } else { "quick" }.into()),
        ),
        ("key", J::S(key.into())),
        ("detail", J::S(detail.into())),
    ]);
    let _ = std::fs::write(&path, text);
    path
}

/// Report a hang as a violation and end the process.
pub fn watchdog(prop: &'static str, tier: Tier, limit_ms: u64) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let now = now_ms();
        for slot in &SLOTS {
            let since = slot.since.load(Relaxed);
            if since != 0 && now > since + limit_ms {
                let what = slot.what.lock().map(|w| w.clone()).unwrap_or_default();
                let path = write_replay(
                    prop,
                    tier,
                    &what,
                    &format!("does not terminate within {limit_ms} ms"),
                    0,
                );
                println!("VIOLATION property={prop} replay={}", path.display());
                println!("  hang in: {what}");
                let dir = verif_dir().join("evidence");
                let _ = std::fs::create_dir_all(&dir);
                std::process::exit(1);
            }
        }
    });
}

pub enum J {
    S(String),
    N(i64),
    F(f64),
    B(bool),
    A(Vec<J>),
    O(Vec<(String, J)>),
}

impl J {
    fn write(&self, o: &mut String) {
        match self {
            Self::S(s) => json_str(s, o),
            Self::N(n) => o.push_str(&n.to_string()),
            Self::F(n) => o.push_str(&format!("{n:.3}")),
            Self::B(b) => o.push_str(&b.to_string()),
            Self::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push_str(", ");
                    }
                    x.write(o);
                }
                o.push(']');
            }
            Self::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push_str(", ");
                    }
                    json_str(k, o);
                    o.push_str(": ");
                    x.write(o);
                }
                o.push('}');
            }
        }
    }
}

pub fn json_str(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20
                || (0x7f..=0x9f).contains(&(c as u32))
                || matches!(c, '\u{2028}' | '\u{2029}' | '\u{feff}' | '\u{fffe}' | '\u{ffff}') =>
            {
                o.push_str(&format!("\\u{:04x}", c as u32));
            }
            c => o.push(c),
        }
    }
    o.push('"');
}

fn serde_json(entries: &[(&str, J)]) -> String {
    let mut o = String::from("{");
    for (i, (k, v)) in entries.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push_str("\n  ");
        json_str(k, &mut o);
        o.push_str(": ");
        v.write(&mut o);
    }
    o.push_str("\n}\n");
    o
}

/// Compare with a useful message.
pub fn same<T: PartialEq + Debug + ?Sized>(what: &str, got: &T, want: &T) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("{what}: got {got:?}, expected {want:?}"))
    }
}
