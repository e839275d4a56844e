//! Systematic exploration: every execution is a choice sequence; the tree of choice sequences is
//! enumerated completely within the stated deviation bound, in parallel, by re-execution of the real
//! code from scratch (stateless model checking).
use crate::world::{self, Point, World};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

/// Explorations and confirmations are numbered; a thread left over from an earlier one has no say.
static GEN: AtomicU64 = AtomicU64::new(1);
fn park_if_left_over() {
    let mine = MY_GEN.get();
    if mine != 0 && mine != GEN.load(SeqCst) {
        loop {
            std::thread::sleep(Duration::from_secs(3600));
        }
    }
}
pub fn fatal(msg: &str) -> ! {
    park_if_left_over();
    let line = format!("MC-INTERNAL-ERROR: {msg}\n");
    unsafe {
        libc::syscall(libc::SYS_write, 2, line.as_ptr(), line.len());
        libc::syscall(libc::SYS_exit_group, 3);
    }
    loop {}
}

/// Result of one scenario run: Ok(digest of the observable outcome) or the violated requirement.
pub type RunResult = Result<u64, String>;
pub type RunFn = Arc<dyn Fn() -> RunResult + Send + Sync>;
pub struct Space {
    pub name: String,
    /// maximum number of environment deviations per execution
    pub bound: usize,
    /// what the choices are, for the evidence
    pub what: String,
    pub run: RunFn,
}
pub fn space<F: Fn() -> RunResult + Send + Sync + 'static>(name: &str, bound: usize, what: &str, run: F) -> Space {
    Space { name: name.into(), bound, what: what.into(), run: Arc::new(run) }
}
#[derive(Clone, Debug)]
pub struct Violation {
    pub space: String,
    pub choices: Vec<u16>,
    pub what: String,
}
#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub executions: u64,
    pub states: u64,
    pub transitions: u64,
    pub checks: u64,
    pub max_choices: usize,
    pub outcomes: usize,
    pub by_dev: BTreeMap<usize, u64>,
    pub complete: bool,
    pub diverged: u64,
    pub sample: Vec<Vec<u16>>,
}

thread_local! {
    static MY_GEN: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static EXTRA: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
    static CHECKS: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
    static SLOT: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) };
}
/// Counts additional explored transitions (control cycles, function evaluations) of this execution.
pub fn count(n: u64) {
    EXTRA.set(EXTRA.get() + n);
}
/// Counts property evaluations of this execution.
pub fn checked(n: u64) {
    CHECKS.set(CHECKS.get() + n);
}
pub fn last_panic() -> Option<String> {
    PANIC.with(|p| p.borrow_mut().take())
}
pub fn init() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg} at {loc}")));
    }));
}
/// Runs library code that may panic; Err(message) if it does.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(_) => Err(last_panic().unwrap_or_else(|| "panic".into())),
    }
}

pub struct One {
    pub result: RunResult,
    pub points: Vec<Point>,
    pub choices: Vec<u16>,
    pub steps: u64,
    pub checks: u64,
    /// the execution did not follow its script: the library behaved differently than before in the
    /// same situation, so it keeps state across connections
    pub diverged: bool,
}
pub fn run_one(run: &RunFn, script: Vec<u16>) -> One {
    let wanted = script.clone();
    EXTRA.set(0);
    CHECKS.set(0);
    crate::fakemodel::take();
    world::install(World::new(script));
    let r = catch_unwind(AssertUnwindSafe(|| run()));
    let w = world::uninstall();
    let result = match r {
        Ok(r) => r,
        Err(_) => Err(format!("panic: {}", last_panic().unwrap_or_else(|| "?".into()))),
    };
    let diverged = !w.k.ch.choices.starts_with(&wanted);
    let steps = w.k.steps + EXTRA.get();
    One { result, points: w.k.ch.points.clone(), choices: w.k.ch.choices.clone(), steps, checks: CHECKS.get(), diverged }
}

struct Shared {
    // (deviations used, prefix) buckets, lowest deviation count first
    buckets: Vec<Vec<Vec<u16>>>,
    busy: usize,
    stats: Stats,
    outcomes: HashSet<u64>,
    violation: Option<Violation>,
    stop: bool,
}
struct Slot {
    started: AtomicU64,
    script: Mutex<Vec<u16>>,
}
struct Ctx {
    m: Mutex<Shared>,
    cv: Condvar,
    slots: Vec<Slot>,
    t0: Instant,
}
static CTX: Mutex<Option<Arc<Ctx>>> = Mutex::new(None);
static HANG_NAME: Mutex<String> = Mutex::new(String::new());
static CONFIRMING: AtomicBool = AtomicBool::new(false);
static CONFIRMED: Mutex<Option<String>> = Mutex::new(None);

/// Called from inside the simulated kernel when the execution exceeds its horizon.  Never returns.
pub fn report_hang(why: &str, choices: &[u16]) -> ! {
    park_if_left_over();
    if CONFIRMING.load(SeqCst) {
        *CONFIRMED.lock().unwrap() = Some(why.to_string());
    } else {
        let c = CTX.lock().unwrap().clone();
        match c {
            Some(c) => {
                let mut s = c.m.lock().unwrap();
                if s.violation.is_none() {
                    s.violation =
                        Some(Violation { space: HANG_NAME.lock().unwrap().clone(), choices: choices.to_vec(), what: why.to_string() });
                }
                s.stop = true;
                c.cv.notify_all();
            }
            None => fatal(&format!("hang outside exploration: {why}")),
        }
    }
    loop {
        std::thread::sleep(Duration::from_secs(3600));
    }
}

/// Re-runs one execution on a fresh thread; Some(what) if it (again) violates the property.
pub fn confirm(run: &RunFn, choices: &[u16], secs: u64) -> Option<String> {
    let gen = GEN.fetch_add(1, SeqCst) + 1;
    CONFIRMING.store(true, SeqCst);
    *CONFIRMED.lock().unwrap() = None;
    let r = run.clone();
    let ch = choices.to_vec();
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
            MY_GEN.set(gen);
            let o = run_one(&r, ch);
            let _ = tx.send(o.result.err());
        })
        .unwrap();
    let t = Instant::now();
    let out = loop {
        if let Ok(x) = rx.recv_timeout(Duration::from_millis(20)) {
            break x;
        }
        if let Some(w) = CONFIRMED.lock().unwrap().clone() {
            break Some(w);
        }
        if t.elapsed() > Duration::from_secs(secs) {
            break Some(format!("no result within {secs} s of real time (livelock without system calls)"));
        }
    };
    GEN.fetch_add(1, SeqCst);
    CONFIRMING.store(false, SeqCst);
    out
}

pub struct Outcome {
    pub stats: Stats,
    pub violation: Option<Violation>,
}
/// Explores a space completely (up to its deviation bound) or until `deadline`.
pub fn explore(sp: &Space, threads: usize, deadline: Instant) -> Outcome {
    let gen = GEN.fetch_add(1, SeqCst) + 1;
    *HANG_NAME.lock().unwrap() = sp.name.clone();
    let ctx = Arc::new(Ctx {
        m: Mutex::new(Shared {
            buckets: vec![vec![vec![]]],
            busy: 0,
            stats: Stats::default(),
            outcomes: HashSet::new(),
            violation: None,
            stop: false,
        }),
        cv: Condvar::new(),
        slots: (0..threads).map(|_| Slot { started: AtomicU64::new(0), script: Mutex::new(vec![]) }).collect(),
        t0: Instant::now(),
    });
    *CTX.lock().unwrap() = Some(ctx.clone());
    let bound = sp.bound;
    let mut hs = vec![];
    for ti in 0..threads {
        let ctx = ctx.clone();
        let run = sp.run.clone();
        let name = sp.name.clone();
        hs.push(
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || {
                    MY_GEN.set(gen);
                    worker(&ctx, &run, &name, bound, ti, deadline)
                })
                .unwrap(),
        );
    }
    // wait for completion, violation, deadline or a stuck worker
    let mut s = ctx.m.lock().unwrap();
    let mut capped = false;
    loop {
        let done = s.busy == 0 && s.buckets.iter().all(|b| b.is_empty());
        if done || s.stop {
            break;
        }
        if Instant::now() > deadline {
            s.stop = true;
            capped = true;
            ctx.cv.notify_all();
            break;
        }
        let (g, _) = ctx.cv.wait_timeout(s, Duration::from_millis(200)).unwrap();
        s = g;
        let now = ctx.t0.elapsed().as_millis() as u64;
        for sl in &ctx.slots {
            let st = sl.started.load(SeqCst);
            if st != 0 && now > st + 90_000 && s.violation.is_none() {
                s.violation = Some(Violation {
                    space: sp.name.clone(),
                    choices: sl.script.lock().unwrap().clone(),
                    what: "no result within 90 s of real time (livelock without system calls)".into(),
                });
                s.stop = true;
            }
        }
    }
    s.stop = true;
    ctx.cv.notify_all();
    let stuck = s.violation.is_some();
    let out = if stuck {
        // workers may be parked in report_hang: do not join
        let mut st = s.stats.clone();
        st.outcomes = s.outcomes.len();
        let v = s.violation.clone();
        drop(s);
        Outcome { stats: st, violation: v }
    } else {
        drop(s);
        for h in hs {
            let _ = h.join();
        }
        let s = ctx.m.lock().unwrap();
        let mut st = s.stats.clone();
        st.outcomes = s.outcomes.len();
        st.complete = !capped && st.diverged == 0 && s.buckets.iter().all(|b| b.is_empty()) && s.violation.is_none();
        Outcome { stats: st, violation: s.violation.clone() }
    };
    GEN.fetch_add(1, SeqCst);
    *CTX.lock().unwrap() = None;
    out
}
fn worker(ctx: &Arc<Ctx>, run: &RunFn, name: &str, bound: usize, ti: usize, deadline: Instant) {
    SLOT.set(ti);
    loop {
        // take a small batch of work
        let batch: Vec<(usize, Vec<u16>)> = {
            let mut s = ctx.m.lock().unwrap();
            loop {
                if s.stop {
                    return;
                }
                let nb = s.buckets.len();
                let mut got = vec![];
                for d in 0..nb {
                    let l = s.buckets[d].len();
                    if l > 0 {
                        let take = (l / 32).clamp(1, 16);
                        for _ in 0..take {
                            let p = s.buckets[d].pop().unwrap();
                            got.push((d, p));
                        }
                        break;
                    }
                }
                if !got.is_empty() {
                    s.busy += 1;
                    break got;
                }
                if s.busy == 0 {
                    ctx.cv.notify_all();
                    return;
                }
                s = ctx.cv.wait_timeout(s, Duration::from_millis(50)).unwrap().0;
            }
        };
        let mut new: Vec<(usize, Vec<u16>)> = vec![];
        let mut st = Stats::default();
        let mut outs = vec![];
        let mut viol = None;
        for (d, prefix) in batch {
            if Instant::now() > deadline {
                new.push((d, prefix));
                continue;
            }
            let plen = prefix.len();
            *ctx.slots[ti].script.lock().unwrap() = prefix.clone();
            ctx.slots[ti].started.store(ctx.t0.elapsed().as_millis() as u64 + 1, SeqCst);
            let one = run_one(run, prefix.clone());
            ctx.slots[ti].started.store(0, SeqCst);
            st.executions += 1;
            st.states += one.points.len().saturating_sub(plen) as u64 + 1;
            st.transitions += one.steps;
            st.checks += one.checks;
            st.max_choices = st.max_choices.max(one.choices.len());
            *st.by_dev.entry(d).or_default() += 1;
            if st.sample.len() < 3 {
                st.sample.push(one.choices.clone());
            }
            match &one.result {
                Ok(dig) => outs.push(*dig),
                Err(w) => {
                    viol = Some(Violation { space: name.into(), choices: one.choices.clone(), what: w.clone() });
                    break;
                }
            }
            if one.diverged {
                st.diverged += 1;
                continue;
            }
            for i in (plen..one.points.len()).rev() {
                let p = one.points[i];
                let nd = d + p.dev as usize;
                if nd > bound {
                    continue;
                }
                for alt in (1..p.n).rev() {
                    let mut c = one.choices[..i].to_vec();
                    c.push(alt);
                    new.push((nd, c));
                }
            }
        }
        let mut s = ctx.m.lock().unwrap();
        s.busy -= 1;
        for (d, c) in new {
            while s.buckets.len() <= d {
                s.buckets.push(vec![]);
            }
            s.buckets[d].push(c);
        }
        let t = &mut s.stats;
        t.executions += st.executions;
        t.diverged += st.diverged;
        t.states += st.states;
        t.transitions += st.transitions;
        t.checks += st.checks;
        t.max_choices = t.max_choices.max(st.max_choices);
        for (d, n) in st.by_dev {
            *t.by_dev.entry(d).or_default() += n;
        }
        for x in st.sample {
            if t.sample.len() < 4 || t.executions % 997 == 0 && t.sample.len() < 8 {
                t.sample.push(x);
            }
        }
        s.outcomes.extend(outs);
        if let Some(v) = viol {
            // prefer the violation with the fewest deviations/choices
            if s.violation.is_none() {
                s.violation = Some(v);
            }
            s.stop = true;
        }
        ctx.cv.notify_all();
    }
}
/// FNV digest helper for outcomes.
pub struct Dig(pub u64);
impl Dig {
    pub fn new() -> Dig {
        Dig(0xcbf29ce484222325)
    }
    pub fn u(&mut self, x: u64) -> &mut Dig {
        self.0 ^= x;
        self.0 = self.0.wrapping_mul(0x100000001b3);
        self.0 ^= self.0 >> 31;
        self
    }
    pub fn s(&mut self, x: &str) -> &mut Dig {
        for b in x.bytes() {
            self.u(b as u64);
        }
        self
    }
}
impl Default for Dig {
    fn default() -> Self {
        Dig::new()
    }
}
/// Choice helpers for scenarios.
pub fn pick(n: usize) -> usize {
    world::with(|w| w.k.ch.pick(n))
}
pub fn dev(n: usize) -> usize {
    world::with(|w| w.k.ch.dev(n))
}
