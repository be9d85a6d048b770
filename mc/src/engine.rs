//! The exploration engine: exhaustive enumeration of a finite space of cases by
//! index, in parallel, with measured coverage, replayable violations, a
//! per-case watchdog and crash breadcrumbs.

use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::hash::{Hash, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::time::{Duration, Instant};

use serde_json::{Value, json};

pub const THREADS: usize = 8;
const STACK: usize = 256 << 20;
const MAX_VIOLATIONS: usize = 40;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// Which disagreements found in another property's spaces count here as well.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Count {
    All,
    /// Text and message do not denote each other.
    Agree,
    /// Parsing crashed.
    Parse,
    /// Formatting crashed, hid a fault or invented one.
    Format,
}

impl Count {
    fn counts(self, kind: &str, what: &str) -> bool {
        let crash = matches!(kind, "panic" | "escaped-panic" | "hang");
        let formatting = what.starts_with("formatting");
        match self {
            Count::All => true,
            Count::Agree => crash || matches!(kind, "rejected" | "other-plan" | "other-text" | "errors" | "no-fixpoint"),
            Count::Parse => crash && !formatting,
            Count::Format => (crash && formatting) || matches!(kind, "unreported" | "hidden" | "errors" | "not-local"),
        }
    }
}

/// A violation: `key` identifies the failing case stably across runs.
#[derive(Clone, Debug)]
pub struct Violation {
    pub space: String,
    pub kind: String,
    pub key: String,
    pub what: String,
    pub input: String,
}

struct SpaceReport {
    name: String,
    size: u64,
    completed: bool,
}

struct Slot {
    started: AtomicU64,
    crumb: Mutex<String>,
}

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub start: Instant,
    states: Vec<Mutex<HashSet<u64>>>,
    evaluations: AtomicU64,
    transitions: AtomicU64,
    traces: AtomicU64,
    outcomes: Mutex<BTreeMap<String, u64>>,
    violations: Mutex<BTreeMap<String, Violation>>,
    samples: Mutex<Vec<Value>>,
    spaces: Mutex<Vec<SpaceReport>>,
    assumptions: Mutex<Vec<String>>,
    slots: Vec<Slot>,
    stop: AtomicBool,
    crumb_dir: Option<String>,
    only: Option<(String, u64)>,
    within: Mutex<Option<(String, Count)>>,
}

/// Per-worker view of the context, handed to every case.
pub struct Case<'a> {
    pub ctx: &'a Ctx,
    space: &'a str,
    index: u64,
    slot: usize,
    count: Count,
    outcomes: BTreeMap<String, u64>,
}

pub fn hash64<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

thread_local! {
    static GUARDED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_quiet_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        if !GUARDED.with(|g| g.get()) {
            eprintln!("panic outside the code under test: {loc}: {msg}");
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{loc}: {msg}"));
    }));
}

/// Run implementation code; a panic comes back as an error.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let outer = GUARDED.with(|g| g.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    GUARDED.with(|g| g.set(outer));
    r.map_err(|_| {
        format!(
            "panic: {}",
            LAST_PANIC.with(|p| std::mem::take(&mut *p.borrow_mut()))
        )
    })
}

impl Ctx {
    pub fn new(prop: &str, tier: Tier) -> Self {
        Ctx {
            prop: prop.to_string(),
            tier,
            start: Instant::now(),
            states: (0..64).map(|_| Mutex::new(HashSet::new())).collect(),
            evaluations: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            traces: AtomicU64::new(0),
            outcomes: Mutex::default(),
            violations: Mutex::default(),
            samples: Mutex::default(),
            spaces: Mutex::default(),
            assumptions: Mutex::default(),
            slots: (0..THREADS)
                .map(|_| Slot {
                    started: AtomicU64::new(0),
                    crumb: Mutex::default(),
                })
                .collect(),
            stop: AtomicBool::new(false),
            crumb_dir: std::env::var("MC_CRUMBS").ok(),
            only: None,
            within: Mutex::default(),
        }
    }

    pub fn only(mut self, space: &str, index: u64) -> Self {
        self.only = Some((space.to_string(), index));
        self
    }

    pub fn replaying(&self) -> bool {
        self.only.is_some()
    }

    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick || self.within.lock().unwrap().is_some()
    }

    /// Explore the (quick) spaces of another property for what they say about
    /// this one.
    pub fn include(&self, id: &str, count: Count, run: impl FnOnce(&Ctx)) {
        if self.within.lock().unwrap().is_some() {
            return;
        }
        *self.within.lock().unwrap() = Some((id.to_string(), count));
        run(self);
        *self.within.lock().unwrap() = None;
    }

    /// `q` in the quick tier, `t` in the thorough one.
    pub fn pick<T>(&self, q: T, t: T) -> T {
        if self.quick() { q } else { t }
    }

    pub fn assume(&self, text: &str) {
        if self.within.lock().unwrap().is_some() {
            return;
        }
        self.assumptions.lock().unwrap().push(text.to_string());
    }

    pub fn violation_count(&self) -> usize {
        self.violations.lock().unwrap().len()
    }

    fn now_ms(&self) -> u64 {
        self.start.elapsed().as_millis() as u64 + 1
    }

    /// Explore all `n` cases of a space; every index is visited exactly once.
    pub fn space(&self, name: &str, n: u64, f: impl Fn(u64, &mut Case) + Sync) {
        let within = self.within.lock().unwrap().clone();
        let name = &match &within {
            Some((id, _)) => format!("{id}-{name}"),
            None => name.to_string(),
        };
        let count = within.map_or(Count::All, |(_, c)| c);
        if let Some((only, index)) = &self.only {
            if only == name && *index < n {
                let mut case = self.case(name, *index, 0, count);
                f(*index, &mut case);
                case.merge();
            }
            return;
        }
        let next = AtomicU64::new(0);
        let done = AtomicUsize::new(0);
        let chunk = (n / (THREADS as u64 * 64)).clamp(1, 256);
        std::thread::scope(|s| {
            for slot in 0..THREADS {
                let (f, next, done) = (&f, &next, &done);
                std::thread::Builder::new()
                    .stack_size(STACK)
                    .spawn_scoped(s, move || {
                        let mut case = self.case(name, 0, slot, count);
                        'outer: loop {
                            let from = next.fetch_add(chunk, Relaxed);
                            if from >= n {
                                break;
                            }
                            for i in from..(from + chunk).min(n) {
                                if self.stop.load(Relaxed) {
                                    break 'outer;
                                }
                                case.index = i;
                                self.slots[slot].started.store(self.now_ms(), Relaxed);
                                if let Err(e) = guarded(|| f(i, &mut case)) {
                                    case.fail("escaped-panic", &e, "");
                                }
                                self.slots[slot].started.store(0, Relaxed);
                            }
                        }
                        case.merge();
                        done.fetch_add(1, Relaxed);
                    })
                    .expect("spawn worker");
            }
            // The watchdog: a case that does not return is a violation.
            while done.load(Relaxed) < THREADS {
                std::thread::sleep(Duration::from_millis(20));
                let now = self.now_ms();
                for slot in &self.slots {
                    let started = slot.started.load(Relaxed);
                    if started != 0 && now.saturating_sub(started) > 45_000 {
                        let crumb = slot.crumb.lock().map(|c| c.clone()).unwrap_or_default();
                        self.add_violation(Violation {
                            space: name.to_string(),
                            kind: "hang".into(),
                            key: format!("{name}/hang/{:016x}", hash64(&crumb)),
                            what: "the call did not return within 45 s".into(),
                            input: crumb,
                        });
                        std::process::exit(crate::finish(self));
                    }
                }
            }
        });
        self.spaces.lock().unwrap().push(SpaceReport {
            name: name.to_string(),
            size: n,
            completed: !self.stop.load(Relaxed),
        });
    }

    fn case<'a>(&'a self, space: &'a str, index: u64, slot: usize, count: Count) -> Case<'a> {
        Case {
            ctx: self,
            space,
            index,
            slot,
            count,
            outcomes: BTreeMap::new(),
        }
    }

    pub fn add_violation(&self, v: Violation) {
        let mut vs = self.violations.lock().unwrap();
        vs.entry(v.key.clone()).or_insert(v);
        if vs.len() >= MAX_VIOLATIONS {
            self.stop.store(true, Relaxed);
        }
    }

    pub fn violations(&self) -> Vec<Violation> {
        self.violations.lock().unwrap().values().cloned().collect()
    }

    pub fn evidence(&self, violations: usize, known: usize) -> Value {
        let spaces = self.spaces.lock().unwrap();
        let states: usize = self.states.iter().map(|s| s.lock().unwrap().len()).sum();
        json!({
            "property": self.prop,
            "tier": if self.tier == Tier::Quick { "quick" } else { "thorough" },
            "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1),
            "level": "model_checking",
            "coverage": {
                "states": states,
                "transitions": self.transitions.load(Relaxed),
                "traces_validated_against_impl": self.traces.load(Relaxed),
                "evaluations": self.evaluations.load(Relaxed),
                "exhaustive": spaces.iter().all(|s| s.completed),
                "spaces": spaces.iter().map(|s| json!({"name": s.name, "cases": s.size, "completed": s.completed})).collect::<Vec<_>>(),
                "outcomes": *self.outcomes.lock().unwrap(),
                "known_findings_seen": known,
                "samples": *self.samples.lock().unwrap(),
                "rule": "every index of every listed space is executed once on the real code; states = distinct inputs by hash, transitions = calls into the implementation, traces = comparisons of an implementation result with the reference model's prediction",
            },
            "assumptions": *self.assumptions.lock().unwrap(),
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": violations,
        })
    }
}

impl Case<'_> {
    pub fn index(&self) -> u64 {
        self.index
    }

    /// Note the input about to be run, as a new state of the exploration.
    pub fn state(&mut self, input: &str) {
        let h = hash64(input);
        self.ctx.states[(h & 63) as usize].lock().unwrap().insert(h);
        self.ctx.evaluations.fetch_add(1, Relaxed);
        self.crumb(input);
        if self.index % 65_537 == 3 || self.index == 1 {
            let mut samples = self.ctx.samples.lock().unwrap();
            if samples.len() < 24 {
                let mut text = input.to_string();
                if text.len() > 600 {
                    let mut cut = 600;
                    while !text.is_char_boundary(cut) {
                        cut -= 1;
                    }
                    text.truncate(cut);
                }
                samples.push(json!({"space": self.space, "index": self.index, "case": text}));
            }
        }
    }

    pub fn crumb(&self, input: &str) {
        let text = format!("{}#{}\n{input}", self.space, self.index);
        if let Some(dir) = &self.ctx.crumb_dir {
            let _ = fs::write(format!("{dir}/crumb-{}", self.slot), &text);
        }
        if let Ok(mut c) = self.ctx.slots[self.slot].crumb.lock() {
            *c = text;
        }
    }

    /// Count `n` calls into the implementation.
    pub fn step(&mut self, n: u64) {
        self.ctx.transitions.fetch_add(n, Relaxed);
    }

    /// Count one comparison of the implementation with the model.
    pub fn trace(&mut self) {
        self.ctx.traces.fetch_add(1, Relaxed);
    }

    pub fn outcome(&mut self, what: &str) {
        if let Some(n) = self.outcomes.get_mut(what) {
            *n += 1;
        } else {
            self.outcomes.insert(what.to_string(), 1);
        }
    }

    pub fn fail(&mut self, kind: &str, what: &str, input: &str) {
        if std::env::var_os("MC_SURVEY").is_some() {
            eprintln!("SURVEY [{kind}] {input:?} {what:?}");
            return;
        }
        if !self.count.counts(kind, what) {
            self.outcome("not judged here");
            return;
        }
        let key = format!("{}/{kind}/{:016x}", self.space, hash64(input));
        self.ctx.add_violation(Violation {
            space: format!("{}#{}", self.space, self.index),
            kind: kind.to_string(),
            key,
            what: what.to_string(),
            input: input.to_string(),
        });
    }

    fn merge(&mut self) {
        let mut all = self.ctx.outcomes.lock().unwrap();
        for (k, v) in std::mem::take(&mut self.outcomes) {
            *all.entry(format!("{}: {k}", self.space)).or_default() += v;
        }
    }
}

/// Decode a mixed-radix index: successive `take(n)` calls enumerate a product.
pub struct Radix(pub u64);

impl Radix {
    pub fn take(&mut self, n: usize) -> usize {
        let r = (self.0 % n as u64) as usize;
        self.0 /= n as u64;
        r
    }

    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.take(xs.len())]
    }
}

/// All sequences of length 0..=max over `n` symbols, as an indexable space.
pub fn seq_count(n: u64, max: u32) -> u64 {
    (0..=max).map(|l| n.pow(l)).sum()
}

pub fn seq_decode(mut i: u64, n: u64) -> Vec<usize> {
    let mut len = 0;
    while i >= n.pow(len) {
        i -= n.pow(len);
        len += 1;
    }
    let mut out = vec![0; len as usize];
    for slot in out.iter_mut().rev() {
        *slot = (i % n) as usize;
        i /= n;
    }
    out
}
