//! Runs a property: generates its cases on all cores, checks each against the
//! code under test, counts what was generated, shrinks the first failure and
//! writes the replay file and the evidence.

use crate::alloc;
use crate::src::{mix, Src};
use serde::{de::DeserializeOwned, Serialize};
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
    /// `q` cases in the quick tier, `t` in the thorough one.
    pub fn n(self, q: u64, t: u64) -> u64 {
        match self {
            Tier::Quick => q,
            Tier::Thorough => t,
        }
    }
}

/// A block of cases of one kind.
#[derive(Clone, Debug)]
pub struct Phase {
    pub name: &'static str,
    pub count: u64,
    /// The phase enumerates a finite space; case `i` is a function of `i`, and
    /// all cases are distinct.
    pub enumerated: bool,
}

pub fn random(name: &'static str, count: u64) -> Phase {
    Phase { name, count, enumerated: false }
}
pub fn enumerated(name: &'static str, count: u64) -> Phase {
    Phase { name, count, enumerated: true }
}

/// Filled in by a check while it runs one case.
#[derive(Default)]
pub struct Ctx {
    pub nontrivial: bool,
    pub classes: Vec<&'static str>,
    pub skip_classes: bool,
}

impl Ctx {
    pub fn clear(&mut self) {
        self.nontrivial = false;
        self.classes.clear();
    }
    /// Marks the case as non-trivial when `b` holds.
    pub fn nontrivial(&mut self, b: bool) {
        self.nontrivial |= b;
    }
    /// Counts the case under a label.
    pub fn class(&mut self, label: &'static str) {
        if !self.classes.contains(&label) {
            self.classes.push(label);
        }
    }
    pub fn class_if(&mut self, b: bool, label: &'static str) {
        if b {
            self.class(label);
        }
    }
}

/// A property failed; the text says how.
#[derive(Clone, Debug)]
pub struct Fail(pub String);
pub type Res = Result<(), Fail>;

#[macro_export]
macro_rules! fail {
    ($($a:tt)*) => { return Err($crate::engine::Fail(format!($($a)*))) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err($crate::engine::Fail(format!($($a)*))) } };
}

pub trait Prop: Send + Sync + 'static {
    type Case: Serialize + DeserializeOwned + Hash + std::fmt::Debug + Clone + Send + 'static;
    const ID: &'static str;
    /// Factor on the counts of the random phases in the quick tier.
    const QUICK: u64;
    /// How cases are made, and what makes one non-trivial.
    const RULE: &'static str;
    const ASSUMPTIONS: &'static [&'static str];
    fn phases(tier: Tier) -> Vec<Phase>;
    /// Builds a case; must not call the code under test.
    fn gen(phase: &str, idx: u64, src: &mut Src) -> Self::Case;
    fn check(case: &Self::Case, ctx: &mut Ctx) -> Res;
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static IN_SUT: Cell<bool> = const { Cell::new(false) };
    static USAGE: Cell<alloc::Usage> = const { Cell::new(alloc::Usage { peak: 0, largest: 0, kept: 0 }) };
}

/// Calls the code under test. A panic in it is a failure of the property.
pub fn sut<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Fail> {
    IN_SUT.set(true);
    alloc::arm();
    let r = catch_unwind(AssertUnwindSafe(f));
    USAGE.set(alloc::disarm());
    IN_SUT.set(false);
    r.map_err(|_| Fail(format!("{} panicked: {}", what, LAST_PANIC.with(|p| p.borrow().clone()))))
}

/// Heap usage of the last `sut` call on this thread.
pub fn usage() -> alloc::Usage {
    USAGE.get()
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        // The message is the harness's own allocation, not the code's.
        let u = alloc::disarm();
        let msg = payload(info.payload());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let text = format!("{} ({})", msg, loc);
        if !IN_SUT.get() {
            eprintln!("HARNESS PANIC: {}", text);
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = text);
        let _ = u;
    }));
}

fn payload(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

fn fnv(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

pub struct Fx(pub u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        mix(self.0)
    }
    fn write(&mut self, bytes: &[u8]) {
        for c in bytes.chunks(8) {
            let mut b = [0u8; 8];
            b[..c.len()].copy_from_slice(c);
            self.0 = (self.0.rotate_left(5) ^ u64::from_le_bytes(b)).wrapping_mul(0x517cc1b727220a95);
        }
    }
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64)
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517cc1b727220a95);
    }
}

pub fn case_seed(seed: u64, id: &str, phase: &str, idx: u64) -> u64 {
    mix(mix(seed ^ fnv(id)) ^ mix(fnv(phase)).wrapping_add(idx.wrapping_mul(0x9e3779b97f4a7c15)))
}

thread_local! {
    static SALT: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}

/// A number that belongs to the case under way, for choices among ways that
/// are to give the same.
pub fn salt() -> u64 {
    SALT.get()
}

/// Gives a vector more or less room than it has, by the salt of the case.
pub fn spare<T>(v: &mut Vec<T>, which: u64) {
    let x = crate::src::mix(salt() ^ which << 56 ^ v.len() as u64);
    let y = (x >> 8) as usize;
    match x % 8 {
        4 if v.len() < 4096 => v.shrink_to_fit(),
        5 => v.reserve(y % 16),
        6 => v.reserve(y % 600),
        7 if y % 4 == 0 => v.reserve(y / 4 % 100_000 / std::mem::size_of::<T>()),
        _ => {}
    }
}

/// The same octets at another address, by the salt of the case. Short ones
/// stay where they are.
pub struct Placed<'a>(&'a [u8], Vec<u8>, usize);

impl<'a> Placed<'a> {
    pub fn new(data: &'a [u8]) -> Placed<'a> {
        let at = (salt() >> 40) as usize % 16;
        if data.len() < 8 || at == 0 {
            return Placed(data, vec![], 0);
        }
        let mut room = vec![0xa5; at];
        room.extend_from_slice(data);
        room.push(0x5a);
        Placed(data, room, at)
    }

    pub fn get(&self) -> &[u8] {
        if self.1.is_empty() {
            return self.0;
        }
        &self.1[self.2..self.1.len() - 1]
    }
}

/// Runs one case; a panic outside the code under test is a harness error.
pub fn run_case<P: Prop>(case: &P::Case, ctx: &mut Ctx) -> Result<(), Verdict> {
    let mut h = Fx(0);
    case.hash(&mut h);
    SALT.set(crate::src::mix(std::hash::Hasher::finish(&h)));
    match catch_unwind(AssertUnwindSafe(|| P::check(case, ctx))) {
        Ok(Ok(())) => Ok(()),
        Ok(Err(f)) => Err(Verdict::Fail(f)),
        Err(_) => Err(Verdict::Harness(LAST_PANIC.with(|p| p.borrow().clone()))),
    }
}

pub enum Verdict {
    Fail(Fail),
    Harness(String),
}

pub struct Opts {
    pub seed: u64,
    pub tier: Tier,
    pub verif: PathBuf,
    pub state: Option<PathBuf>,
    pub scale: f64,
}

/// CPU seconds one case may take before the watchdog stops the run. Cases take
/// micro- to milliseconds.
pub const CASE_CPU: f64 = 20.0;

fn thread_cpu(clock: libc::clockid_t) -> f64 {
    unsafe {
        let mut ts: libc::timespec = std::mem::zeroed();
        if libc::clock_gettime(clock, &mut ts) != 0 {
            return -1.0;
        }
        ts.tv_sec as f64 + ts.tv_nsec as f64 * 1e-9
    }
}

fn own_clock() -> libc::clockid_t {
    unsafe {
        let mut c: libc::clockid_t = 0;
        libc::pthread_getcpuclockid(libc::pthread_self(), &mut c);
        c
    }
}

pub struct Slot {
    active: AtomicBool,
    clock: AtomicU64,
    phase: AtomicU64,
    idx: AtomicU64,
    serial: AtomicU64,
    /// The choices of a guided case, whose `idx` is `u64::MAX`.
    choices: Vec<AtomicU64>,
    len: AtomicUsize,
}

/// So many choices of a guided case are kept for the report.
const KEPT: usize = 8192;

impl Slot {
    pub fn begin(&self) {
        self.clock.store(own_clock() as u32 as u64, Ordering::SeqCst);
    }
    pub fn end(&self) {
        self.active.store(false, Ordering::SeqCst);
    }
    /// Says which case comes next.
    pub fn at(&self, phase: u64, idx: u64, choices: &[u64]) {
        let n = choices.len().min(self.choices.len());
        for (a, c) in self.choices.iter().zip(&choices[..n]) {
            a.store(*c, Ordering::Relaxed);
        }
        self.len.store(n, Ordering::Relaxed);
        self.phase.store(phase, Ordering::Relaxed);
        self.idx.store(idx, Ordering::Relaxed);
        self.serial.fetch_add(1, Ordering::SeqCst);
        self.active.store(true, Ordering::SeqCst);
    }
}

pub fn new_slots(n: usize) -> Arc<Vec<Slot>> {
    Arc::new(
        (0..n)
            .map(|_| Slot {
                active: AtomicBool::new(false),
                clock: AtomicU64::new(0),
                phase: AtomicU64::new(0),
                idx: AtomicU64::new(0),
                serial: AtomicU64::new(0),
                choices: (0..KEPT).map(|_| AtomicU64::new(0)).collect(),
                len: AtomicUsize::new(0),
            })
            .collect(),
    )
}

/// Exit code of a worker that was stopped by its watchdog or a crash.
pub const STOPPED: i32 = 77;

static CRASH_SLOTS: AtomicUsize = AtomicUsize::new(0);
static CRASH_FD: AtomicUsize = AtomicUsize::new(usize::MAX);

/// What to print when a candidate of the shrinking hangs or crashes: the
/// violation with its input as first found (its files are already written).
static FALLBACK: AtomicUsize = AtomicUsize::new(0);

/// CPU seconds one candidate of the shrinking may take.
const SHRINK_CPU: f64 = 2.0;

/// Reports the violation that is being shrunk, if one is, and ends.
unsafe fn fall_back() {
    let p = FALLBACK.load(Ordering::SeqCst) as *const String;
    if !p.is_null() {
        let b = (*p).as_bytes();
        libc::write(1, b.as_ptr() as *const libc::c_void, b.len());
        libc::_exit(1);
    }
}

extern "C" fn on_crash(_sig: libc::c_int) {
    unsafe {
        fall_back();
        let fd = CRASH_FD.load(Ordering::SeqCst);
        let ptr = CRASH_SLOTS.load(Ordering::SeqCst) as *const Vec<Slot>;
        if fd != usize::MAX && !ptr.is_null() {
            let mut line = [0u8; 64];
            let put = |b: &[u8]| {
                libc::write(fd as i32, b.as_ptr() as *const libc::c_void, b.len());
            };
            put(b"crash\n");
            for s in (*ptr).iter() {
                if !s.active.load(Ordering::SeqCst) {
                    continue;
                }
                let mut number = |v: u64, end: u8| {
                    let mut digits = [0u8; 20];
                    let (mut n, mut k, mut v) = (0, 0, v);
                    loop {
                        digits[k] = b'0' + (v % 10) as u8;
                        k += 1;
                        v /= 10;
                        if v == 0 {
                            break;
                        }
                    }
                    for j in (0..k).rev() {
                        line[n] = digits[j];
                        n += 1;
                    }
                    line[n] = end;
                    put(&line[..n + 1]);
                };
                number(s.phase.load(Ordering::SeqCst), b' ');
                number(s.idx.load(Ordering::SeqCst), b' ');
                let len = s.len.load(Ordering::SeqCst).min(s.choices.len());
                for c in &s.choices[..len] {
                    number(c.load(Ordering::SeqCst), b' ');
                }
                put(b"\n");
            }
        }
        libc::_exit(STOPPED);
    }
}

/// Makes a crash of the process record the cases it was at.
fn watch_crashes(slots: &Arc<Vec<Slot>>, state: &Option<PathBuf>) {
    let Some(path) = state else { return };
    let Ok(f) = std::fs::File::create(path) else { return };
    use std::os::fd::IntoRawFd;
    CRASH_FD.store(f.into_raw_fd() as usize, Ordering::SeqCst);
    let leaked: &'static Arc<Vec<Slot>> = Box::leak(Box::new(slots.clone()));
    let v: &Vec<Slot> = leaked;
    CRASH_SLOTS.store(v as *const Vec<Slot> as usize, Ordering::SeqCst);
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_crash as *const () as usize;
        sa.sa_flags = libc::SA_ONSTACK;
        for sig in [libc::SIGABRT, libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE] {
            libc::sigaction(sig, &sa, std::ptr::null_mut());
        }
    }
}

/// Watches the case each thread is at; when one runs away it records the case
/// and ends the process, and the supervisor decides.
pub fn watchdog(slots: Arc<Vec<Slot>>, state: Option<PathBuf>) {
    watch_crashes(&slots, &state);
    std::thread::spawn(move || {
        let n = slots.len();
        let mut seen = vec![(u64::MAX, 0.0f64); n];
        loop {
            std::thread::sleep(std::time::Duration::from_millis(250));
            let over = alloc::OVER_CAP.load(Ordering::SeqCst);
            let mut stuck = vec![];
            for (i, s) in slots.iter().enumerate() {
                if !s.active.load(Ordering::SeqCst) {
                    seen[i].0 = u64::MAX;
                    continue;
                }
                let serial = s.serial.load(Ordering::SeqCst);
                let cpu = thread_cpu(s.clock.load(Ordering::SeqCst) as u32 as i32);
                if serial != seen[i].0 {
                    seen[i] = (serial, cpu);
                } else if cpu - seen[i].1 > if FALLBACK.load(Ordering::SeqCst) != 0 { SHRINK_CPU } else { CASE_CPU } {
                    stuck.push(i);
                }
            }
            if over || !stuck.is_empty() {
                unsafe { fall_back() };
            }
            if over {
                stuck = (0..n).filter(|&i| slots[i].active.load(Ordering::SeqCst)).collect();
            }
            if !stuck.is_empty() {
                let mut text = String::new();
                for i in stuck {
                    let s = &slots[i];
                    text.push_str(&format!("{} {}", s.phase.load(Ordering::SeqCst), s.idx.load(Ordering::SeqCst)));
                    for c in &s.choices[..s.len.load(Ordering::SeqCst).min(s.choices.len())] {
                        text.push_str(&format!(" {}", c.load(Ordering::SeqCst)));
                    }
                    text.push('\n');
                }
                if let Some(p) = &state {
                    let _ = std::fs::write(p, format!("{}\n{}", if over { "memory" } else { "time" }, text));
                }
                unsafe { libc::_exit(STOPPED) };
            }
        }
    });
}

struct PhaseOut {
    evaluations: u64,
    nontrivial: u64,
    distinct: HashSet<u64>,
    classes: BTreeMap<&'static str, u64>,
    samples: Vec<(u64, serde_json::Value)>,
}

pub fn sample_value<C: Serialize>(c: &C) -> serde_json::Value {
    let v = serde_json::to_value(c).unwrap_or(serde_json::Value::Null);
    let s = v.to_string();
    if s.len() > 1500 {
        let cut: String = s.chars().take(1500).collect();
        serde_json::Value::String(format!("{}... ({} characters)", cut, s.len()))
    } else {
        v
    }
}

pub enum Outcome {
    Held,
    Violated,
    HarnessError,
}

/// Runs every phase of a property.
pub fn run<P: Prop>(o: &Opts) -> Outcome {
    let start = Instant::now();
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(1).min(16);
    let slots = new_slots(threads);
    watchdog(slots.clone(), o.state.clone());
    let mut phases = P::phases(o.tier);
    for p in phases.iter_mut() {
        if !p.enumerated {
            let factor = if o.tier == Tier::Quick { P::QUICK as f64 } else { (P::QUICK as f64 * 0.6).max(1.0) };
            p.count = ((p.count as f64 * factor * o.scale) as u64).max(1);
        }
    }
    let mut evaluations = 0u64;
    let mut distinct_total = 0u64;
    let mut nontrivial_total = 0u64;
    let mut samples = vec![];
    let mut phase_stats = serde_json::Map::new();
    let mut violation: Option<(Phase, u64, Fail)> = None;

    for (pi, phase) in phases.iter().enumerate() {
        let t0 = Instant::now();
        let next = AtomicU64::new(0);
        let worst = AtomicU64::new(u64::MAX);
        let failure: Mutex<Option<(u64, Fail)>> = Mutex::new(None);
        let harness: Mutex<Option<(u64, String)>> = Mutex::new(None);
        let chunk: u64 = if phase.enumerated { (phase.count / (threads as u64 * 8)).clamp(1, 4096) } else { (phase.count / (threads as u64 * 8)).clamp(1, 64) };
        let tid = AtomicUsize::new(0);
        let outs: Vec<PhaseOut> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..threads)
                .map(|_| {
                    let (next, worst, failure, harness, slots, tid) = (&next, &worst, &failure, &harness, &slots, &tid);
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(sc, move || {
                            let me = tid.fetch_add(1, Ordering::SeqCst);
                            let slot = &slots[me];
                            slot.clock.store(own_clock() as u32 as u64, Ordering::SeqCst);
                            let mut out = PhaseOut { evaluations: 0, nontrivial: 0, distinct: HashSet::new(), classes: BTreeMap::new(), samples: vec![] };
                            let mut ctx = Ctx::default();
                            'work: loop {
                                let from = next.fetch_add(chunk, Ordering::SeqCst);
                                if from >= phase.count || from > worst.load(Ordering::SeqCst) || harness.lock().unwrap().is_some() {
                                    break;
                                }
                                for idx in from..(from + chunk).min(phase.count) {
                                    if idx > worst.load(Ordering::SeqCst) {
                                        break 'work;
                                    }
                                    slot.phase.store(pi as u64, Ordering::Relaxed);
                                    slot.idx.store(idx, Ordering::Relaxed);
                                    slot.serial.fetch_add(1, Ordering::SeqCst);
                                    slot.active.store(true, Ordering::SeqCst);
                                    let mut src = Src::seeded(case_seed(o.seed, P::ID, phase.name, idx));
                                    let case = P::gen(phase.name, idx, &mut src);
                                    ctx.nontrivial = false;
                                    ctx.classes.clear();
                                    let v = run_case::<P>(&case, &mut ctx);
                                    out.evaluations += 1;
                                    for c in &ctx.classes {
                                        *out.classes.entry(c).or_default() += 1;
                                    }
                                    if ctx.nontrivial {
                                        out.nontrivial += 1;
                                        if !phase.enumerated && out.distinct.len() < 4_000_000 {
                                            let mut h = Fx(0);
                                            case.hash(&mut h);
                                            out.distinct.insert(h.finish());
                                        }
                                        if out.samples.len() < 2 {
                                            out.samples.push((idx, sample_value(&case)));
                                        }
                                    }
                                    match v {
                                        Ok(()) => {}
                                        Err(Verdict::Fail(f)) => {
                                            let mut g = failure.lock().unwrap();
                                            if g.as_ref().map_or(true, |(i, _)| idx < *i) {
                                                *g = Some((idx, f));
                                                worst.store(idx, Ordering::SeqCst);
                                            }
                                            break 'work;
                                        }
                                        Err(Verdict::Harness(m)) => {
                                            *harness.lock().unwrap() = Some((idx, m));
                                            break 'work;
                                        }
                                    }
                                }
                            }
                            slot.active.store(false, Ordering::SeqCst);
                            out
                        })
                        .unwrap()
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        if let Some((idx, m)) = harness.into_inner().unwrap() {
            eprintln!("harness error in {} phase {} case {}: {}", P::ID, phase.name, idx, m);
            return Outcome::HarnessError;
        }
        let mut distinct = HashSet::new();
        let mut nontrivial = 0;
        let mut evals = 0;
        let mut classes: BTreeMap<&str, u64> = BTreeMap::new();
        let mut ss = vec![];
        for out in outs {
            evals += out.evaluations;
            nontrivial += out.nontrivial;
            distinct.extend(out.distinct);
            for (k, v) in out.classes {
                *classes.entry(k).or_default() += v;
            }
            ss.extend(out.samples);
        }
        ss.sort_by_key(|s| s.0);
        for (idx, v) in ss.into_iter().take(2) {
            samples.push(serde_json::json!({"phase": phase.name, "case": idx, "input": v}));
        }
        let d = if phase.enumerated { nontrivial } else { distinct.len() as u64 };
        evaluations += evals;
        nontrivial_total += nontrivial;
        distinct_total += d;
        phase_stats.insert(
            phase.name.to_string(),
            serde_json::json!({
                "evaluations": evals, "nontrivial": nontrivial, "distinct_nontrivial": d,
                "enumerated_completely": phase.enumerated && evals == phase.count,
                "classes": classes, "wall_s": (t0.elapsed().as_secs_f64() * 1000.0).round() / 1000.0,
            }),
        );
        if let Some((idx, f)) = failure.into_inner().unwrap() {
            violation = Some((phase.clone(), idx, f));
            break;
        }
    }

    write_evidence(
        o,
        P::ID,
        P::ASSUMPTIONS,
        serde_json::json!({
            "evaluations": evaluations,
            "distinct_nontrivial": distinct_total,
            "nontrivial": nontrivial_total,
            "rule": P::RULE,
            "samples": samples,
            "phases": phase_stats,
        }),
        start.elapsed().as_secs_f64(),
        violation.is_some() as u64,
    );
    println!(
        "{} {}: {} cases, {} distinct non-trivial, {:.1} s",
        P::ID,
        o.tier.name(),
        evaluations,
        distinct_total,
        start.elapsed().as_secs_f64()
    );
    if let Some((phase, idx, f)) = &violation {
        let mut src = Src::seeded(case_seed(o.seed, P::ID, phase.name, *idx));
        let case = P::gen(phase.name, *idx, &mut src);
        if phase.enumerated {
            let (path, msg) = write_replay::<P>(o, phase.name, *idx, &case, &f.0, 0);
            print!("{}", violation_text(P::ID, phase.name, *idx, &msg, &path));
        } else {
            report::<P>(o, &slots[0], phase.name, phase.name, *idx, src.rec, f.clone());
        }
        return Outcome::Violated;
    }
    Outcome::Held
}

fn violation_text(id: &str, phase: &str, idx: u64, msg: &str, path: &Path) -> String {
    format!("{} fails in phase {} case {}: {}\nVIOLATION property={} replay={}\n", id, phase, idx, msg.replace('\n', " "), id, path.display())
}

pub fn write_evidence(o: &Opts, id: &str, assumptions: &[&str], coverage: serde_json::Value, wall: f64, violations: u64) {
    let dir = o.verif.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let v = serde_json::json!({
        "property": id, "tier": o.tier.name(), "seed": o.seed, "level": "exploration",
        "coverage": coverage, "assumptions": assumptions,
        "wall_s": (wall * 1000.0).round() / 1000.0, "violations": violations,
    });
    let mut f = std::fs::File::create(dir.join(format!("{}.json", id))).expect("evidence");
    f.write_all(serde_json::to_string_pretty(&v).unwrap().as_bytes()).expect("evidence");
}

/// Adds the guided search to the evidence that the phases before it wrote.
pub fn add_evidence(o: &Opts, id: &str, phase: serde_json::Value, sample: Option<serde_json::Value>, wall: f64, violations: u64) {
    let path = o.verif.join("evidence").join(format!("{}.json", id));
    let Some(mut v) = std::fs::read_to_string(&path).ok().and_then(|t| serde_json::from_str::<serde_json::Value>(&t).ok()) else { return };
    if v["tier"] != o.tier.name() {
        return;
    }
    let cov = &mut v["coverage"];
    for k in ["evaluations", "distinct_nontrivial", "nontrivial"] {
        cov[k] = (cov[k].as_u64().unwrap_or(0) + phase[k].as_u64().unwrap_or(0)).into();
    }
    if let (Some(s), Some(a)) = (sample, cov["samples"].as_array_mut()) {
        a.push(serde_json::json!({"phase": "guided", "case": 0, "input": s}));
    }
    cov["phases"]["guided"] = phase;
    v["wall_s"] = (((v["wall_s"].as_f64().unwrap_or(0.0) + wall) * 1000.0).round() / 1000.0).into();
    v["violations"] = violations.into();
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
}

/// Shrinks a failing case given by its choices and prints the violation.
pub fn report<P: Prop>(o: &Opts, slot: &Slot, phase: &str, kind: &str, idx: u64, choices: Vec<u64>, f: Fail) {
    let case = P::gen(phase, idx, &mut Src::replay(&choices));
    let (path, msg) = write_replay::<P>(o, kind, idx, &case, &f.0, 0);
    let _ = std::io::stdout().flush();
    FALLBACK.store(Box::leak(Box::new(violation_text(P::ID, kind, idx, &msg, &path))) as *const String as usize, Ordering::SeqCst);
    let (small, msg, evals) = shrink::<P>(phase, idx, case, f.0, choices, slot);
    FALLBACK.store(0, Ordering::SeqCst);
    let (path, msg) = write_replay::<P>(o, kind, idx, &small, &msg, evals);
    print!("{}", violation_text(P::ID, kind, idx, &msg, &path));
}

pub fn write_replay<P: Prop>(o: &Opts, phase: &str, idx: u64, case: &P::Case, msg: &str, shrinks: u64) -> (PathBuf, String) {
    let dir = o.verif.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}-{}.json", P::ID, phase, idx));
    let short: String = msg.chars().take(2000).collect();
    let v = serde_json::json!({
        "property": P::ID, "seed": o.seed, "phase": phase, "case": idx,
        "shrink_evaluations": shrinks, "message": short, "input": case,
    });
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
    (path, short)
}

/// Shrinks a failing case over its recorded choices.
fn shrink<P: Prop>(phase: &str, idx: u64, case: P::Case, msg: String, choices: Vec<u64>, slot: &Slot) -> (P::Case, String, u64) {
    let start = Instant::now();
    let mut best = choices;
    let mut best_case = case;
    let mut best_msg = msg;
    let mut evals = 0u64;
    slot.clock.store(own_clock() as u32 as u64, Ordering::SeqCst);
    slot.serial.fetch_add(1, Ordering::SeqCst);
    slot.active.store(true, Ordering::SeqCst);
    let mut attempt = |cand: &[u64], best: &mut Vec<u64>, evals: &mut u64| -> bool {
        if *evals >= 6000 || start.elapsed().as_secs_f64() > 20.0 {
            return false;
        }
        *evals += 1;
        slot.serial.fetch_add(1, Ordering::SeqCst);
        let r = catch_unwind(AssertUnwindSafe(|| {
            let mut src = Src::replay(cand);
            let case = P::gen(phase, idx, &mut src);
            let mut rec = src.rec;
            while rec.last() == Some(&0) {
                rec.pop();
            }
            let smaller = (rec.len(), rec.iter().fold(0u128, |a, b| a + *b as u128)) < (best.len(), best.iter().fold(0u128, |a, b| a + *b as u128));
            if !smaller {
                return None;
            }
            let mut ctx = Ctx::default();
            match P::check(&case, &mut ctx) {
                Err(f) => Some((case, f.0, rec)),
                Ok(()) => None,
            }
        }));
        if let Ok(Some((c, m, rec))) = r {
            best_case = c;
            best_msg = m;
            *best = rec;
            true
        } else {
            false
        }
    };
    loop {
        let mut progress = false;
        let mut size = 64.min(best.len().max(1));
        while size >= 1 {
            let mut i = 0;
            while i + size <= best.len() {
                let mut cand = best.clone();
                cand.drain(i..i + size);
                if attempt(&cand, &mut best, &mut evals) {
                    progress = true;
                } else {
                    // delete, and lower the count that was drawn before it
                    let mut done = false;
                    if i > 0 && best[i - 1] > 0 && size <= 16 {
                        let mut cand = best.clone();
                        cand[i - 1] -= 1;
                        cand.drain(i..i + size);
                        done = attempt(&cand, &mut best, &mut evals);
                    }
                    if done {
                        progress = true;
                    } else {
                        i += if size > 8 { size / 2 } else { 1 };
                    }
                }
            }
            size /= 2;
        }
        let mut i = 0;
        while i < best.len() {
            if best[i] > 0 {
                let old = best[i];
                let mut cand = best.clone();
                cand[i] = 0;
                if attempt(&cand, &mut best, &mut evals) {
                    progress = true;
                } else {
                    let (mut lo, mut hi) = (0u64, old);
                    while hi - lo > 1 && i < best.len() {
                        let mid = lo + (hi - lo) / 2;
                        let mut cand = best.clone();
                        cand[i] = mid;
                        if attempt(&cand, &mut best, &mut evals) {
                            progress = true;
                            hi = mid;
                        } else {
                            lo = mid;
                        }
                    }
                }
            }
            i += 1;
        }
        if !progress || evals >= 6000 || start.elapsed().as_secs_f64() > 20.0 {
            break;
        }
    }
    slot.active.store(false, Ordering::SeqCst);
    (best_case, best_msg, evals)
}

/// Checks the input of a replay file. `None`: the file cannot be used.
pub fn replay<P: Prop>(o: &Opts, file: &Path) -> Option<bool> {
    let text = std::fs::read_to_string(file).ok()?;
    let v: serde_json::Value = serde_json::from_str(&text).ok()?;
    let case: P::Case = serde_json::from_value(v.get("input")?.clone()).ok()?;
    let slots = new_slots(1);
    watchdog(slots.clone(), o.state.clone());
    slots[0].clock.store(own_clock() as u32 as u64, Ordering::SeqCst);
    slots[0].active.store(true, Ordering::SeqCst);
    let mut ctx = Ctx::default();
    match run_case::<P>(&case, &mut ctx) {
        Ok(()) => Some(true),
        Err(Verdict::Fail(f)) => {
            println!("{} fails: {}", P::ID, f.0);
            Some(false)
        }
        Err(Verdict::Harness(m)) => {
            eprintln!("harness error: {}", m);
            None
        }
    }
}

/// Runs the cases `from..to` of one phase alone, on one thread, keeping the
/// current case in the state file. Used by the supervisor on a worker that
/// died or was stopped.
pub fn isolate<P: Prop>(o: &Opts, phase: usize, from: u64, to: u64) -> Outcome {
    let slots = new_slots(1);
    watchdog(slots.clone(), o.state.clone());
    let phases = P::phases(o.tier);
    let Some(ph) = phases.get(phase) else { return Outcome::HarnessError };
    slots[0].clock.store(own_clock() as u32 as u64, Ordering::SeqCst);
    slots[0].phase.store(phase as u64, Ordering::SeqCst);
    for idx in from..to {
        slots[0].idx.store(idx, Ordering::SeqCst);
        slots[0].serial.fetch_add(1, Ordering::SeqCst);
        slots[0].active.store(true, Ordering::SeqCst);
        let mut src = Src::seeded(case_seed(o.seed, P::ID, ph.name, idx));
        let case = P::gen(ph.name, idx, &mut src);
        let mut ctx = Ctx::default();
        match run_case::<P>(&case, &mut ctx) {
            Ok(()) => {}
            Err(Verdict::Fail(f)) => {
                println!("{}", f.0);
                return Outcome::Violated;
            }
            Err(Verdict::Harness(_)) => return Outcome::HarnessError,
        }
    }
    Outcome::Held
}

/// The same for one guided case.
pub fn isolate_choices<P: Prop>(o: &Opts, phase: usize, choices: &[u64]) -> Outcome {
    let slots = new_slots(1);
    watchdog(slots.clone(), o.state.clone());
    let phases = P::phases(o.tier);
    let Some(ph) = phases.get(phase) else { return Outcome::HarnessError };
    slots[0].begin();
    slots[0].at(phase as u64, u64::MAX, choices);
    let case = P::gen(ph.name, 0, &mut Src::replay(choices));
    match run_case::<P>(&case, &mut Ctx::default()) {
        Ok(()) => Outcome::Held,
        Err(Verdict::Fail(_)) => Outcome::Violated,
        Err(Verdict::Harness(_)) => Outcome::HarnessError,
    }
}

/// Writes the evidence, replay and VIOLATION line for a case that ends or hangs
/// the process that runs it.
pub fn report_runaway<P: Prop>(o: &Opts, phase: usize, idx: u64, choices: &[u64], what: &str, wall: f64) {
    let phases = P::phases(o.tier);
    let ph = &phases[phase];
    let case = if idx == u64::MAX {
        P::gen(ph.name, 0, &mut Src::replay(choices))
    } else {
        P::gen(ph.name, idx, &mut Src::seeded(case_seed(o.seed, P::ID, ph.name, idx)))
    };
    let (path, _) = write_replay::<P>(o, ph.name, idx, &case, what, 0);
    write_evidence(
        o,
        P::ID,
        P::ASSUMPTIONS,
        serde_json::json!({
            "evaluations": 1, "distinct_nontrivial": 1, "rule": P::RULE,
            "samples": [serde_json::json!({"phase": ph.name, "case": idx, "input": sample_value(&case)})],
            "note": "the worker process did not survive this case, so its counts are lost",
        }),
        wall,
        1,
    );
    print!("{}", violation_text(P::ID, ph.name, idx, what, &path));
}

/// Type-erased entry points of a property.
pub struct Entry {
    pub id: &'static str,
    pub run: fn(&Opts) -> Outcome,
    pub replay: fn(&Opts, &Path) -> Option<bool>,
    pub isolate: fn(&Opts, usize, u64, u64) -> Outcome,
    pub isolate_choices: fn(&Opts, usize, &[u64]) -> Outcome,
    pub runaway: fn(&Opts, usize, u64, &[u64], &str, f64),
    pub guided: fn(&Opts) -> Outcome,
    pub fuzz: fn(&[u8]) -> Result<(), (String, String)>,
    pub phases: fn(Tier) -> Vec<Phase>,
}

/// Runs one fuzzer input: the first byte picks a random phase, the rest are
/// the choices. Returns message and case of a failure.
pub fn fuzz_one<P: Prop>(data: &[u8]) -> Result<(), (String, String)> {
    let phases: Vec<Phase> = P::phases(Tier::Quick).into_iter().filter(|p| !p.enumerated).collect();
    if data.is_empty() || phases.is_empty() {
        return Ok(());
    }
    let ph = &phases[data[0] as usize % phases.len()];
    let mut src = Src::bytes(&data[1..]);
    let case = P::gen(ph.name, 0, &mut src);
    let mut ctx = Ctx::default();
    match P::check(&case, &mut ctx) {
        Ok(()) => Ok(()),
        Err(f) => Err((
            f.0.clone(),
            serde_json::to_string_pretty(&serde_json::json!({
                "property": P::ID, "phase": ph.name, "message": f.0, "input": case,
            }))
            .unwrap(),
        )),
    }
}

pub fn entry<P: Prop>() -> Entry {
    Entry { id: P::ID, run: run::<P>, replay: replay::<P>, isolate: isolate::<P>, isolate_choices: isolate_choices::<P>, guided: crate::guided::run::<P>, runaway: report_runaway::<P>, fuzz: fuzz_one::<P>, phases: P::phases }
}
