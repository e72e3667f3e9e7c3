//! Check framework: properties are lists of modes (generator + check); cases are spread over
//! shards; a failing case is shrunk on its tape and written as a JSON replay file.
use model::tape::{self, Tape};
use serde::Serialize;
use serde::de::DeserializeOwned;
use serde_json::{Value, json};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};

pub const SHARDS: usize = 8;

/// Per-case bookkeeping filled in by the check.
#[derive(Default)]
pub struct Ctx {
    pub labels: BTreeMap<&'static str, u64>,
    pub key: Option<u64>,
    pub discarded: bool,
    pub sample: bool,
    pub note: Option<Value>,
}
impl Ctx {
    /// Mark the case non-trivial; `key` identifies it for counting distinct ones.
    pub fn nontrivial(&mut self, key: u64) {
        self.key = Some(key);
    }
    pub fn label(&mut self, l: &'static str) {
        *self.labels.entry(l).or_insert(0) += 1;
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l);
        }
    }
    pub fn add(&mut self, l: &'static str, k: u64) {
        *self.labels.entry(l).or_insert(0) += k;
    }
    pub fn discard(&mut self) {
        self.discarded = true;
    }
    pub fn note(&mut self, f: impl FnOnce() -> Value) {
        if self.sample {
            self.note = Some(f());
        }
    }
}

pub type CheckResult = Result<(), String>;

pub trait ModeDyn: Sync + Send {
    fn name(&self) -> &'static str;
    fn cases(&self, thorough: bool) -> u64;
    fn case_json(&self, t: &mut Tape) -> Value;
    fn run_tape(&self, t: &mut Tape, c: &mut Ctx) -> (CheckResult, Option<Value>);
    fn run_json(&self, v: Value, c: &mut Ctx) -> CheckResult;
}

pub struct Mode<C> {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub make: fn(&mut Tape) -> C,
    pub check: fn(&C, &mut Ctx) -> CheckResult,
}

impl<C: Serialize + DeserializeOwned + 'static> ModeDyn for Mode<C> {
    fn name(&self) -> &'static str {
        self.name
    }
    fn cases(&self, thorough: bool) -> u64 {
        if thorough { self.thorough } else { self.quick }
    }
    fn case_json(&self, t: &mut Tape) -> Value {
        serde_json::to_value((self.make)(t)).expect("case to JSON")
    }
    fn run_tape(&self, t: &mut Tape, c: &mut Ctx) -> (CheckResult, Option<Value>) {
        let case = (self.make)(t);
        let r = guarded(|| (self.check)(&case, c));
        let v = (c.sample || r.is_err()).then(|| serde_json::to_value(&case).expect("case to JSON"));
        (r, v)
    }
    fn run_json(&self, v: Value, c: &mut Ctx) -> CheckResult {
        let case: C = serde_json::from_value(v).map_err(|e| format!("unreadable case: {e}"))?;
        guarded(|| (self.check)(&case, c))
    }
}

pub fn mode<C: Serialize + DeserializeOwned + 'static>(
    name: &'static str,
    quick: u64,
    thorough: u64,
    make: fn(&mut Tape) -> C,
    check: fn(&C, &mut Ctx) -> CheckResult,
) -> Box<dyn ModeDyn> {
    Box::new(Mode {
        name,
        quick,
        thorough,
        make,
        check,
    })
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub modes: Vec<Box<dyn ModeDyn>>,
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| (*s).to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        let at = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some(format!("panicked at {at}: {msg}")));
    }));
}

fn guarded(f: impl FnOnce() -> CheckResult) -> CheckResult {
    crate::guard::begin();
    let r = catch_unwind(AssertUnwindSafe(f));
    crate::guard::end();
    match r {
        Ok(r) => r,
        Err(_) => Err(PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "panicked".into())),
    }
}

pub fn case_seed(seed: u64, id: &str, mode: &str, idx: u64) -> u64 {
    tape::mix(tape::mix(seed ^ model::hash_of(id)) ^ model::hash_of(mode).rotate_left(17) ^ tape::mix(idx))
}

pub struct Failure {
    pub mode: &'static str,
    pub idx: u64,
    pub case: Value,
    pub message: String,
    pub shrunk_from: usize,
    pub shrunk_to: usize,
}

#[derive(Default)]
pub struct Outcome {
    pub evaluations: u64,
    pub discarded: u64,
    pub keys: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub failure: Option<Failure>,
}

/// Where each shard is: (mode index << 40 | case index) + 1, for post-mortem of crashes.
pub static SLOTS: [AtomicU64; SHARDS] = [const { AtomicU64::new(0) }; SHARDS];
pub static TIDS: [AtomicUsize; SHARDS] = [const { AtomicUsize::new(0) }; SHARDS];

pub fn run_all(p: &Property, seed: u64, thorough: bool, slot_file: Option<&std::fs::File>) -> Outcome {
    let stop = AtomicBool::new(false);
    let slow: Option<u128> = std::env::var("BNFCHECK_SLOW").ok().and_then(|s| s.parse().ok());
    let total = Mutex::new(Outcome::default());
    std::thread::scope(|s| {
        for shard in 0..SHARDS {
            let stop = &stop;
            let total = &total;
            std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn_scoped(s, move || {
                    TIDS[shard].store(unsafe { libc::syscall(libc::SYS_gettid) } as usize, Ordering::Relaxed);
                    let mut o = Outcome::default();
                    for (mi, m) in p.modes.iter().enumerate() {
                        let cases = m.cases(thorough);
                        let mut idx = shard as u64;
                        while idx < cases && !stop.load(Ordering::Relaxed) {
                            let slot = ((mi as u64) << 40 | idx) + 1;
                            SLOTS[shard].store(slot, Ordering::Relaxed);
                            if let Some(f) = slot_file {
                                use std::os::unix::fs::FileExt;
                                let _ = f.write_at(&slot.to_le_bytes(), (shard * 8) as u64);
                            }
                            let mut t = Tape::random(case_seed(seed, p.id, m.name(), idx));
                            let mut c = Ctx {
                                sample: idx < 16,
                                ..Ctx::default()
                            };
                            let t0 = std::time::Instant::now();
                            let (r, v) = m.run_tape(&mut t, &mut c);
                            if slow.is_some_and(|s| t0.elapsed().as_millis() > s) {
                                eprintln!("slow: {} {idx}: {} ms", m.name(), t0.elapsed().as_millis());
                            }
                            o.evaluations += 1;
                            for (k, n) in c.labels {
                                *o.labels.entry(format!("{}: {k}", m.name())).or_insert(0) += n;
                            }
                            if c.discarded {
                                o.discarded += 1;
                            }
                            if let Some(k) = c.key {
                                o.keys.insert(k ^ model::hash_of(m.name()));
                                if idx < 16 && o.samples.len() < 24 && let Some(v) = &v {
                                    o.samples.push(json!({"mode": m.name(), "case": brief(v, 1500),
                                        "note": c.note.as_ref().map(|n| brief(n, 800))}));
                                }
                            }
                            if let Err(msg) = r {
                                if !stop.swap(true, Ordering::SeqCst) {
                                    o.failure = Some(shrink_failure(&**m, idx, t.into_used(), v, msg));
                                }
                                break;
                            }
                            idx += SHARDS as u64;
                        }
                        if stop.load(Ordering::Relaxed) {
                            break;
                        }
                    }
                    SLOTS[shard].store(0, Ordering::Relaxed);
                    if let Some(f) = slot_file {
                        use std::os::unix::fs::FileExt;
                        let _ = f.write_at(&0u64.to_le_bytes(), (shard * 8) as u64);
                    }
                    let mut t = total.lock().expect("lock");
                    t.evaluations += o.evaluations;
                    t.discarded += o.discarded;
                    t.keys.extend(o.keys);
                    for (k, n) in o.labels {
                        *t.labels.entry(k).or_insert(0) += n;
                    }
                    t.samples.extend(o.samples);
                    if o.failure.is_some() {
                        t.failure = o.failure;
                    }
                })
                .expect("spawn shard");
        }
    });
    total.into_inner().expect("lock")
}

/// The value itself when it is small, else the beginning of its text.
fn brief(v: &Value, max: usize) -> Value {
    let mut text = v.to_string();
    if text.len() <= max && text.matches(['{', '[']).count() < 60 {
        return v.clone();
    }
    let k = (0..=max.min(text.len())).rev().find(|k| text.is_char_boundary(*k)).unwrap_or(0);
    text.truncate(k);
    Value::String(format!("{text} ..."))
}

/// Messages can quote huge inputs: keep their ends.
fn cut(s: String) -> String {
    const KEEP: usize = 3000;
    if s.len() <= 2 * KEEP {
        return s;
    }
    let a = (0..=KEEP).rev().find(|k| s.is_char_boundary(*k)).unwrap_or(0);
    let b = (s.len() - KEEP..=s.len()).find(|k| s.is_char_boundary(*k)).unwrap_or(s.len());
    format!("{} [...] {}", &s[..a], &s[b..])
}

fn shrink_failure(m: &dyn ModeDyn, idx: u64, used: Vec<u64>, v: Option<Value>, msg: String) -> Failure {
    let from = used.len();
    let started = std::time::Instant::now();
    let mut best: (Value, String) = (v.unwrap_or(Value::Null), msg);
    let out = tape::shrink(used, 4000, |cand| {
        if started.elapsed().as_secs() > 45 {
            return None;
        }
        let mut t = Tape::replay(cand.to_vec());
        let mut c = Ctx::default();
        let (r, v) = m.run_tape(&mut t, &mut c);
        match r {
            Err(_) => {
                let _ = v;
                Some(t.into_used())
            }
            Ok(()) => None,
        }
    });
    // rebuild case and message of the best tape
    let mut t = Tape::replay(out.clone());
    let mut c = Ctx::default();
    let (r, v) = m.run_tape(&mut t, &mut c);
    if let (Err(e), Some(v)) = (r, v) {
        best = (v, e);
    }
    Failure {
        mode: m.name(),
        idx,
        case: best.0,
        message: cut(best.1),
        shrunk_from: from,
        shrunk_to: out.len(),
    }
}
