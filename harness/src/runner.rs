//! Runs the parts of a property over generated cases, collects evidence and
//! shrinks the first failure to a replay file.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};

use crate::source::Source;

pub type CheckResult = Result<(), Fail>;

#[derive(Debug, Clone)]
pub struct Fail {
    pub message: String,
    /// Signature under which the finding may be listed as known.
    pub signature: Option<String>,
}

impl Fail {
    pub fn new(message: impl Into<String>) -> Self {
        Self { message: message.into(), signature: None }
    }
    pub fn signed(signature: &str, message: impl Into<String>) -> Self {
        Self { message: message.into(), signature: Some(signature.to_string()) }
    }
}

impl std::fmt::Display for Fail {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.message)
    }
}

impl From<String> for Fail {
    fn from(message: String) -> Self {
        Fail::new(message)
    }
}

#[macro_export]
macro_rules! fail {
    ($($arg:tt)*) => { return Err($crate::runner::Fail::new(format!($($arg)*))) };
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => { if !$cond { return Err($crate::runner::Fail::new(format!($($arg)*))); } };
}

#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($arg:tt)*) => {{
        match (&$a, &$b) {
            (a, b) => {
                if a != b {
                    return Err($crate::runner::Fail::new(format!("{}: got {:?}, expected {:?}", format!($($arg)*), a, b)));
                }
            }
        }
    }};
}

/// Statistics of one shard (merged afterwards in shard order).
#[derive(Default)]
pub struct Ctx {
    pub evaluations: u64,
    pub classes: BTreeMap<String, u64>,
    pub nontrivial: HashSet<u64>,
    pub samples: Vec<String>,
    pub known: BTreeMap<String, (u64, String)>,
    pub muted: bool,
    pub tier_thorough: bool,
    case_class_count: usize,
}

pub const MAX_SAMPLES: usize = 6;

impl Ctx {
    pub fn class(&mut self, name: &str) {
        if self.muted {
            return;
        }
        if let Some(v) = self.classes.get_mut(name) {
            *v += 1;
        } else {
            self.classes.insert(name.to_string(), 1);
        }
        self.case_class_count += 1;
    }
    pub fn nontrivial<T: Hash + ?Sized>(&mut self, value: &T) {
        if self.muted {
            return;
        }
        let mut h = std::collections::hash_map::DefaultHasher::new();
        value.hash(&mut h);
        self.nontrivial.insert(h.finish());
    }
    pub fn sample(&mut self, text: impl FnOnce() -> String) {
        if self.muted || self.samples.len() >= MAX_SAMPLES {
            return;
        }
        // Take spread-out cases instead of only the first ones.
        let n = self.evaluations;
        if n % 97 == 3 || n < 2 {
            let t = text();
            let t = if t.len() > 400 {
                let mut cut = 400;
                while !t.is_char_boundary(cut) { cut -= 1; }
                format!("{}...", &t[..cut])
            } else { t };
            self.samples.push(t);
        }
    }
}

pub enum Kind {
    /// Random cases from a tape; (quick cases, thorough cases, min tape, max tape).
    Random { quick: u32, thorough: u32, tape: (usize, usize), f: fn(&mut Source, &mut Ctx) -> CheckResult },
    /// Full enumeration, one call per shard 0..8 with the shard index.
    Exhaustive { f: fn(usize, usize, &mut Ctx) -> CheckResult },
}

pub struct Part {
    pub name: &'static str,
    pub kind: Kind,
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    /// Whether the parts are also run in the plain-text-before-extension build.
    pub both_builds: bool,
    pub assumptions: &'static [&'static str],
    pub parts: Vec<Part>,
}

pub struct Failure {
    pub part: String,
    pub tape: Vec<u32>,
    pub message: String,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "unknown panic".to_string());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg} at {loc}")));
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone()).unwrap_or_else(|| "panic".to_string())
}

/// Calls `f`, turning a panic into an error text.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| format!("panicked: {}", last_panic()))
}

/// The case a worker thread is busy with.
struct Busy {
    part: &'static str,
    tape: Vec<u32>,
    since: Option<Instant>,
}

static BUSY: [Mutex<Busy>; SHARDS] = [const { Mutex::new(Busy { part: "", tape: Vec::new(), since: None }) }; SHARDS];

thread_local! {
    static SLOT: std::cell::Cell<(usize, &'static str)> = const { std::cell::Cell::new((0, "")) };
    static TRACE: Option<std::path::PathBuf> = std::env::var_os("VERIF_TRACE").map(Into::into);
}

/// A case that takes longer than this does not return.
pub const HANG: Duration = Duration::from_secs(100);

/// The part and tape of a case that does not return.
pub fn hanging() -> Option<(&'static str, Vec<u32>)> {
    BUSY.iter().find_map(|b| {
        let b = b.lock().unwrap();
        b.since.filter(|t| t.elapsed() > HANG).map(|_| (b.part, b.tape.clone()))
    })
}

/// Notes the case that is about to run, also in a file when asked for one.
fn note(tape: &[u32], timed: bool) {
    let (slot, part) = SLOT.get();
    {
        let mut b = BUSY[slot].lock().unwrap();
        b.part = part;
        b.tape.clear();
        b.tape.extend_from_slice(tape);
        b.since = timed.then(Instant::now);
    }
    TRACE.with(|t| {
        if let Some(dir) = t {
            let _ = std::fs::write(dir.join(slot.to_string()), format!("{}", serde_json::json!({"part": part, "tape": tape})));
        }
    });
}

fn run_case(f: fn(&mut Source, &mut Ctx) -> CheckResult, tape: &[u32], ctx: &mut Ctx, known: &BTreeMap<String, String>) -> CheckResult {
    note(tape, true);
    let done = run_noted(f, tape, ctx, known);
    BUSY[SLOT.get().0].lock().unwrap().since = None;
    done
}

fn run_noted(f: fn(&mut Source, &mut Ctx) -> CheckResult, tape: &[u32], ctx: &mut Ctx, known: &BTreeMap<String, String>) -> CheckResult {
    let result = catch_unwind(AssertUnwindSafe(|| f(&mut Source::new(tape), ctx)))
        .unwrap_or_else(|_| {
            let p = last_panic();
            // A panic inside the harness itself is an error of the check.
            if p.contains("harness/src/") || p.contains(" at src/") {
                eprintln!("harness error: {p}");
                std::process::exit(3);
            }
            Err(Fail::new(format!("panicked: {p}")))
        });
    match result {
        Err(fail) => {
            if let Some(sig) = &fail.signature {
                if known.contains_key(sig) {
                    if !ctx.muted {
                        let entry = ctx.known.entry(sig.clone()).or_insert((0, fail.message.clone()));
                        entry.0 += 1;
                    }
                    return Ok(());
                }
            }
            Err(fail)
        }
        ok => ok,
    }
}

fn mix(seed: u64, a: u64, b: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325 ^ seed.wrapping_mul(0x9E3779B97F4A7C15);
    for x in a.to_le_bytes().iter().chain(b.as_bytes()) {
        h ^= u64::from(*x);
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}

pub const SHARDS: usize = 8;

pub struct PartOutcome {
    pub name: &'static str,
    pub ctx: Ctx,
    pub failure: Option<Failure>,
}

pub fn run_part(
    id: &str,
    part: &Part,
    seed: u64,
    thorough: bool,
    scale: f64,
    known: &BTreeMap<String, String>,
) -> PartOutcome {
    let outcomes: Vec<(Ctx, Option<Failure>)> = std::thread::scope(|scope| {
        let handles: Vec<_> = (0..SHARDS)
            .map(|shard| {
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(scope, move || run_shard(id, part, seed, shard, thorough, scale, known))
                    .expect("spawn")
            })
            .collect();
        handles.into_iter().map(|h| match h.join() {
            Ok(v) => v,
            Err(_) => {
                eprintln!("harness error: worker thread panicked");
                std::process::exit(3);
            }
        }).collect()
    });
    let mut merged = Ctx::default();
    let mut failure = None;
    for (ctx, f) in outcomes {
        merged.evaluations += ctx.evaluations;
        for (k, v) in ctx.classes {
            *merged.classes.entry(k).or_insert(0) += v;
        }
        merged.nontrivial.extend(ctx.nontrivial);
        for s in ctx.samples {
            if merged.samples.len() < MAX_SAMPLES {
                merged.samples.push(s);
            }
        }
        for (k, (n, m)) in ctx.known {
            let e = merged.known.entry(k).or_insert((0, m));
            e.0 += n;
        }
        if failure.is_none() {
            failure = f;
        }
    }
    PartOutcome { name: part.name, ctx: merged, failure }
}

fn run_shard(
    id: &str,
    part: &Part,
    seed: u64,
    shard: usize,
    thorough: bool,
    scale: f64,
    known: &BTreeMap<String, String>,
) -> (Ctx, Option<Failure>) {
    let ctx = RefCell::new(Ctx { tier_thorough: thorough, ..Ctx::default() });
    SLOT.set((shard, part.name));
    match part.kind {
        Kind::Exhaustive { f } => {
            note(&[shard as u32], false);
            let result = catch_unwind(AssertUnwindSafe(|| f(shard, SHARDS, &mut ctx.borrow_mut())))
                .unwrap_or_else(|_| {
                    let p = last_panic();
                    if p.contains("harness/src/") || p.contains(" at src/") {
                        eprintln!("harness error: {p}");
                        std::process::exit(3);
                    }
                    Err(Fail::new(format!("panicked: {p}")))
                });
            let failure = match result {
                Ok(()) => None,
                Err(fail) => {
                    match &fail.signature {
                        Some(sig) if known.contains_key(sig) => {
                            // ctx may still be borrowed after a panic; not the case here
                            ctx.borrow_mut().known.insert(sig.clone(), (1, fail.message.clone()));
                            None
                        }
                        _ => Some(Failure { part: part.name.to_string(), tape: vec![shard as u32], message: fail.message }),
                    }
                }
            };
            (ctx.into_inner(), failure)
        }
        Kind::Random { quick, thorough: more, tape, f } => {
            let total = if thorough { more } else { quick };
            let total = ((f64::from(total) * scale) as u32).max(SHARDS as u32);
            let cases = total / SHARDS as u32 + u32::from((shard as u32) < total % SHARDS as u32);
            let mut key = [0u8; 32];
            for (i, chunk) in key.chunks_mut(8).enumerate() {
                chunk.copy_from_slice(&mix(seed, (shard as u64) << 8 | i as u64, &format!("{id}/{}", part.name)).to_le_bytes());
            }
            let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &key);
            let config = Config {
                cases,
                failure_persistence: None,
                max_shrink_iters: 6000,
                max_shrink_time: 60_000,
                ..Config::default()
            };
            let mut runner = TestRunner::new_with_rng(config, rng);
            let strategy = proptest::collection::vec(proptest::num::u32::ANY, tape.0..=tape.1);
            let result = runner.run(&strategy, |t| {
                let mut c = ctx.borrow_mut();
                if !c.muted {
                    c.evaluations += 1;
                }
                match run_case(f, &t, &mut c, known) {
                    Ok(()) => Ok(()),
                    Err(fail) => {
                        // Everything after the first failure is shrinking.
                        c.muted = true;
                        Err(TestCaseError::fail(fail.message))
                    }
                }
            });
            let failure = match result {
                Ok(()) => None,
                Err(TestError::Fail(_, t)) => {
                    let t = trim(f, t, &mut ctx.borrow_mut(), known);
                    let message = match run_case(f, &t, &mut ctx.borrow_mut(), known) {
                        Err(fail) => fail.message,
                        Ok(()) => "failure did not reproduce on replay (non-deterministic behaviour)".to_string(),
                    };
                    Some(Failure { part: part.name.to_string(), tape: t, message })
                }
                Err(TestError::Abort(reason)) => {
                    eprintln!("harness error: {reason}");
                    std::process::exit(3);
                }
            };
            (ctx.into_inner(), failure)
        }
    }
}

/// Drops trailing tape entries and zeroes entries that the failure does not need.
fn trim(f: fn(&mut Source, &mut Ctx) -> CheckResult, mut tape: Vec<u32>, ctx: &mut Ctx, known: &BTreeMap<String, String>) -> Vec<u32> {
    let mut fails = |t: &[u32]| run_case(f, t, ctx, known).is_err();
    if !fails(&tape) {
        return tape;
    }
    let mut budget = 3000;
    let mut step = tape.len() / 2;
    while step > 0 && budget > 0 {
        while tape.len() > step && budget > 0 {
            budget -= 1;
            let cut = tape[..tape.len() - step].to_vec();
            if fails(&cut) {
                tape = cut;
            } else {
                break;
            }
        }
        step /= 2;
    }
    for i in 0..tape.len() {
        if budget == 0 {
            break;
        }
        if tape[i] != 0 {
            budget -= 1;
            let mut t = tape.clone();
            t[i] = 0;
            if fails(&t) {
                tape = t;
            }
        }
    }
    // Trailing zeros read like an exhausted tape, except where a generator asks for its end.
    let kept = tape.iter().rposition(|x| *x != 0).map_or(0, |i| i + 1);
    if fails(&tape[..kept]) {
        tape.truncate(kept);
    }
    tape
}

/// Re-runs one stored tape.
pub fn replay_part(part: &Part, tape: &[u32], known: &BTreeMap<String, String>) -> CheckResult {
    let mut ctx = Ctx::default();
    SLOT.set((0, part.name));
    match part.kind {
        Kind::Random { f, .. } => run_case(f, tape, &mut ctx, known),
        Kind::Exhaustive { f } => f(tape.first().copied().unwrap_or(0) as usize, SHARDS, &mut ctx),
    }
}

