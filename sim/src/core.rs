//! The simulator core: the decision tape, virtual time, the event heap, the
//! seeded task scheduler and the strict wakers. One tape is one execution.

use std::cell::RefCell;
use std::cmp::Reverse;
use std::collections::{BTreeMap, BinaryHeap};
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- PRNG

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
}

pub fn mix(h: u64, v: u64) -> u64 {
    let mut z = (h ^ v).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    z ^= z >> 29;
    z = z.wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z ^ (z >> 32)
}

// ---------------------------------------------------------------- tape

/// Every decision of a run goes through the tape. The *outcome* (0 = simplest,
/// no fault, first task, whole buffer) is recorded, so a recorded tape can be
/// shortened, zeroed and lowered by the minimiser and replayed exactly.
pub enum Source {
    Gen(Rng),
    Replay(Vec<u32>),
}

pub struct Tape {
    src: Source,
    pos: usize,
    pub rec: Vec<u32>,
}

const TAPE_CAP: usize = 400_000;

impl Tape {
    pub fn generate(seed: u64) -> Self {
        Tape { src: Source::Gen(Rng::new(seed)), pos: 0, rec: Vec::new() }
    }
    pub fn replay(vals: Vec<u32>) -> Self {
        Tape { src: Source::Replay(vals), pos: 0, rec: Vec::new() }
    }
    fn put(&mut self, v: u32) -> u32 {
        self.rec.push(v);
        self.pos += 1;
        v
    }
    /// Outcome in 0..n; in generation mode `f` draws it.
    fn outcome(&mut self, n: u32, f: impl FnOnce(&mut Rng) -> u32) -> u32 {
        if n <= 1 {
            return 0;
        }
        let v = match &mut self.src {
            Source::Gen(r) => {
                if self.pos >= TAPE_CAP {
                    return 0;
                }
                f(r)
            }
            Source::Replay(vals) => vals.get(self.pos).copied().unwrap_or(0).min(n - 1),
        };
        self.put(v)
    }
}

// ---------------------------------------------------------------- sim state

pub struct Sim {
    pub tape: Tape,
    pub now: u64,
    seq: u64,
    /// How often a task began to wait for the simulator (rather than for a real file operation).
    sim_waits: u64,
    events: BinaryHeap<Reverse<(u64, u64)>>,
    wakers: BTreeMap<u64, (Waker, bool)>, // seq -> waker
    pub io_events: u64,
    pub hash: u64,
    pub perturbed: bool,
    pub probes: BTreeMap<&'static str, u64>,
    pub faults: BTreeMap<&'static str, u64>,
    pub tracing: bool,
    pub trace: Vec<String>,
    pub trace_dropped: u64,
    pub polls: u64,
    pub switches: u64,
    pub io_progress: u64,
    /// How often an I/O object (or a sleep) answered Pending.
    pub io_pends: u64,
    /// The longest run of polls of one pending I/O object within one poll of a task.
    pub max_repolls: u32,
    /// Polls nobody asked for.
    pub spurious: u64,
    pub sample: Option<String>,
}

thread_local! {
    static SIM: RefCell<Option<Sim>> = const { RefCell::new(None) };
}

pub fn install(tape: Tape, tracing: bool) {
    SIM.with(|s| {
        *s.borrow_mut() = Some(Sim {
            tape,
            now: 0,
            seq: 0,
            sim_waits: 0,
            events: BinaryHeap::new(),
            wakers: BTreeMap::new(),
            io_events: 0,
            io_pends: 0,
            max_repolls: 0,
            spurious: 0,
            hash: 0x1234_5678,
            perturbed: false,
            probes: BTreeMap::new(),
            faults: BTreeMap::new(),
            tracing,
            trace: Vec::new(),
            trace_dropped: 0,
            polls: 0,
            switches: 0,
            io_progress: 0,
            sample: None,
        })
    });
}

pub fn uninstall() -> Sim {
    SIM.with(|s| s.borrow_mut().take().expect("sim installed"))
}

pub fn with<T>(f: impl FnOnce(&mut Sim) -> T) -> T {
    SIM.with(|s| f(s.borrow_mut().as_mut().expect("sim installed")))
}

/// Uniform outcome in 0..n (0 is the simplest).
pub fn draw(n: u32) -> u32 {
    with(|s| s.tape.outcome(n, |r| r.below(n as u64) as u32))
}

/// lo..=hi
pub fn range(lo: u64, hi: u64) -> u64 {
    debug_assert!(lo <= hi);
    let span = hi - lo;
    if span < u32::MAX as u64 {
        lo + draw(span as u32 + 1) as u64
    } else {
        // two-part draw
        let hi_part = draw((span >> 32) as u32 + 1) as u64;
        let lo_part = draw(u32::MAX) as u64;
        lo + ((hi_part << 32) | lo_part).min(span)
    }
}

/// True with probability permille/1000; outcome 0 is false.
pub fn chance(permille: u32) -> bool {
    if permille == 0 {
        return false;
    }
    with(|s| s.tape.outcome(2, |r| (r.below(1000) < permille as u64) as u32)) == 1
}

/// Index into weights; index 0 is the simplest.
pub fn weighted(w: &[u32]) -> usize {
    let total: u64 = w.iter().map(|x| *x as u64).sum();
    let n = w.len() as u32;
    with(|s| {
        s.tape.outcome(n, |r| {
            let mut x = r.below(total.max(1));
            for (i, wi) in w.iter().enumerate() {
                if x < *wi as u64 {
                    return i as u32;
                }
                x -= *wi as u64;
            }
            0
        })
    }) as usize
}

/// Geometric-ish small number (outcome 0 most likely).
pub fn small(max: u32) -> u32 {
    with(|s| {
        s.tape.outcome(max + 1, |r| {
            let mut v = 0;
            while v < max && r.below(100) < 60 {
                v += 1;
            }
            v
        })
    })
}

pub fn seed32() -> u32 {
    with(|s| s.tape.outcome(u32::MAX, |r| r.below(u32::MAX as u64 - 1) as u32))
}

pub fn now() -> u64 {
    with(|s| s.now)
}

pub fn probe(name: &'static str) {
    with(|s| *s.probes.entry(name).or_insert(0) += 1)
}

pub fn fault(name: &'static str) {
    with(|s| {
        *s.faults.entry(name).or_insert(0) += 1;
        s.perturbed = true;
    })
}

/// A one-line description of the case, for the evidence file.
pub fn sample(f: impl FnOnce() -> String) {
    let want = with(|s| s.sample.is_none());
    if want {
        let line = f();
        with(|s| s.sample = Some(line));
    }
}

pub fn trace(f: impl FnOnce() -> String) {
    let tracing = with(|s| s.tracing);
    if tracing {
        let line = f();
        with(|s| {
            if s.trace.len() < 4000 {
                let t = s.now;
                s.trace.push(format!("t={t} {line}"));
            } else {
                s.trace_dropped += 1;
            }
        })
    }
}

/// One I/O event of the simulated world; feeds the interleaving hash.
pub fn io_event(obj: u32, op: u32, outcome: u64, progress: bool) {
    with(|s| {
        s.io_events += 1;
        if progress {
            s.io_progress += 1;
        }
        s.hash = mix(s.hash, ((obj as u64) << 48) ^ ((op as u64) << 40) ^ outcome);
    })
}

pub fn io_pending(repolls: u32) {
    with(|s| {
        s.io_pends += 1;
        s.max_repolls = s.max_repolls.max(repolls);
    })
}

/// Schedule a wake-up at now+delay. Returns the ticket (for re-registration).
pub fn schedule(delay: u64, waker: Waker) -> u64 {
    with(|s| {
        s.seq += 1;
        s.sim_waits += 1;
        let seq = s.seq;
        let at = s.now + delay;
        s.events.push(Reverse((at, seq)));
        s.wakers.insert(seq, (waker, false));
        seq
    })
}

/// Replace the waker registered under `ticket`; false when it already fired.
pub fn reregister(ticket: u64, waker: Waker) -> bool {
    with(|s| match s.wakers.get_mut(&ticket) {
        Some(slot) => {
            slot.0 = waker;
            s.sim_waits += 1;
            true
        }
        None => false,
    })
}

pub fn unschedule(ticket: u64) {
    let _ = SIM.try_with(|s| {
        if let Ok(mut s) = s.try_borrow_mut() {
            if let Some(s) = s.as_mut() {
                s.wakers.remove(&ticket);
            }
        }
    });
}

// ---------------------------------------------------------------- violations

#[derive(Clone, Debug)]
pub struct Violation {
    pub class: String,
    pub msg: String,
}

#[cold]
pub fn violation(class: &str, msg: String) -> ! {
    std::panic::panic_any(Violation { class: class.to_string(), msg })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $class:expr, $($arg:tt)*) => {
        if !$cond { $crate::core::violation($class, format!($($arg)*)) }
    };
}

// ---------------------------------------------------------------- executor

struct Shared {
    woken: Mutex<Vec<(usize, u64)>>,
    cv: Condvar,
    external: AtomicU64,
}

struct PollWaker {
    task: usize,
    gen: u64,
    shared: Arc<Shared>,
}

impl Wake for PollWaker {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        let mut q = self.shared.woken.lock().unwrap();
        q.push((self.task, self.gen));
        self.shared.cv.notify_all();
    }
}

struct Task {
    fut: Option<Pin<Box<dyn Future<Output = ()>>>>,
    gen: u64,
    ready: bool,
    idle_polls: u64,
}

#[derive(Clone, Copy)]
pub struct ExecCfg {
    /// A wake through a waker that is not the one of the latest poll is ignored.
    pub strict_wakers: bool,
    /// Permille chance, per scheduling step, of polling a task nobody woke.
    pub spurious: u32,
    /// Poll cap: exceeding it means no progress.
    pub max_polls: u64,
    /// Wait (in real time) for wake-ups from outside the simulator (fs reader).
    pub external: bool,
    /// A poll may answer Pending only if some I/O object answered Pending to it.
    pub strict_pending: bool,
}

impl Default for ExecCfg {
    fn default() -> Self {
        ExecCfg { strict_wakers: true, spurious: 0, max_polls: 3_000_000, external: false, strict_pending: false }
    }
}

thread_local! {
    static SPAWN: RefCell<Vec<Pin<Box<dyn Future<Output = ()>>>>> = const { RefCell::new(Vec::new()) };
}

pub fn spawn(f: impl Future<Output = ()> + 'static) {
    SPAWN.with(|s| s.borrow_mut().push(Box::pin(f)));
}

/// Run `main` and everything it spawns to completion.
pub fn run(cfg: ExecCfg, main: impl Future<Output = ()> + 'static) {
    let shared = Arc::new(Shared { woken: Mutex::new(Vec::new()), cv: Condvar::new(), external: AtomicU64::new(0) });
    let mut tasks: Vec<Task> = Vec::new();
    SPAWN.with(|s| s.borrow_mut().clear());
    spawn(main);
    let mut polls: u64 = 0;
    let mut ready: Vec<usize> = Vec::new();
    let mut idle: Vec<usize> = Vec::new();
    loop {
        SPAWN.with(|s| {
            for fut in s.borrow_mut().drain(..) {
                tasks.push(Task { fut: Some(fut), gen: 0, ready: true, idle_polls: 0 });
            }
        });
        drain_wakes(&shared, &mut tasks, cfg.strict_wakers);
        ready.clear();
        idle.clear();
        let mut live = 0;
        for (i, t) in tasks.iter().enumerate() {
            if t.fut.is_some() {
                live += 1;
                if t.ready {
                    ready.push(i)
                } else {
                    idle.push(i)
                }
            }
        }
        if live == 0 {
            return;
        }
        let mut pick = None;
        if !idle.is_empty() && cfg.spurious > 0 && chance(cfg.spurious) {
            let i = idle[draw(idle.len() as u32) as usize];
            fault("spurious_poll");
            with(|s| s.spurious += 1);
            pick = Some(i);
        } else if !ready.is_empty() {
            let k = if ready.len() > 1 { draw(ready.len() as u32) as usize } else { 0 };
            pick = Some(ready[k]);
            if ready.len() > 1 {
                with(|s| {
                    s.hash = mix(s.hash, 0x5C4E_D000 + ready[k] as u64);
                    s.switches += 1;
                    s.perturbed |= k != 0;
                });
            }
        }
        let Some(i) = pick else {
            // Nothing runnable: advance virtual time to the next event.
            if fire_next() {
                continue;
            }
            violation(
                "lost-wakeup",
                format!("{live} task(s) pending, but no I/O operation is outstanding that could wake them (deadlock)"),
            );
        };
        let t = &mut tasks[i];
        t.gen += 1;
        t.ready = false;
        let waker: Waker = Arc::new(PollWaker { task: i, gen: t.gen, shared: shared.clone() }).into();
        let mut cx = Context::from_waker(&waker);
        polls += 1;
        let (before, waits_before, pends_before) = with(|s| {
            s.polls += 1;
            (s.io_events, s.sim_waits, s.io_pends)
        });
        let mut fut = t.fut.take().unwrap();
        let r = fut.as_mut().poll(&mut cx);
        let after = with(|s| s.io_events);
        let t = &mut tasks[i];
        match r {
            Poll::Ready(()) => {}
            Poll::Pending => {
                t.fut = Some(fut);
                ensure!(
                    !cfg.strict_pending || with(|s| s.io_pends) > pends_before,
                    "idle-pending",
                    "a task answers pending although no I/O it polled is pending"
                );
                if after == before {
                    t.idle_polls += 1;
                    ensure!(
                        cfg.external || t.idle_polls < 20_000,
                        "spin",
                        "a task was polled {} times in a row without touching its I/O",
                        t.idle_polls
                    );
                } else {
                    t.idle_polls = 0;
                }
                if cfg.external && with(|s| s.sim_waits) == waits_before {
                    // The task waits for a real (serialised) file operation: let it finish
                    // before the next scheduling decision, so the choice stays the tape's.
                    let gen = tasks[i].gen;
                    wait_external(&shared, i, gen);
                }
            }
        }
        ensure!(polls < cfg.max_polls, "no-progress", "no completion after {polls} polls");
    }
}

fn wait_external(shared: &Shared, task: usize, gen: u64) {
    let start = Instant::now();
    crate::fsim::gate(true);
    let mut q = shared.woken.lock().unwrap();
    while !q.iter().any(|w| *w == (task, gen)) {
        let (g, _) = shared.cv.wait_timeout(q, Duration::from_millis(500)).unwrap();
        q = g;
        if start.elapsed() > Duration::from_secs(30) {
            drop(q);
            crate::fsim::gate(false);
            violation("lost-wakeup", "a task is pending but no file operation ever wakes it".into());
        }
    }
    drop(q);
    crate::fsim::gate(false);
    shared.external.fetch_add(1, Ordering::Relaxed);
}

fn drain_wakes(shared: &Shared, tasks: &mut [Task], strict: bool) {
    let mut q = shared.woken.lock().unwrap();
    for (task, gen) in q.drain(..) {
        let t = &mut tasks[task];
        if t.fut.is_some() && (!strict || gen == t.gen) {
            t.ready = true;
        }
    }
}

fn fire_next() -> bool {
    let w = with(|s| loop {
        match s.events.pop() {
            None => return None,
            Some(Reverse((at, seq))) => {
                if let Some((w, _)) = s.wakers.remove(&seq) {
                    s.now = s.now.max(at);
                    return Some(w);
                }
            }
        }
    });
    match w {
        Some(w) => {
            w.wake();
            true
        }
        None => false,
    }
}

// ---------------------------------------------------------------- combinators

/// Virtual sleep.
pub struct Sleep {
    ticket: Option<u64>,
    until: u64,
    delay: u64,
}
pub fn sleep(delay: u64) -> Sleep {
    Sleep { ticket: None, until: 0, delay }
}
impl Future for Sleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        match self.ticket {
            None => {
                if self.delay == 0 {
                    return Poll::Ready(());
                }
                self.until = now() + self.delay;
                let t = schedule(self.delay, cx.waker().clone());
                self.ticket = Some(t);
                io_event(99, 1, self.delay, false);
                io_pending(0);
                Poll::Pending
            }
            Some(t) => {
                if now() >= self.until && !reregister(t, cx.waker().clone()) {
                    Poll::Ready(())
                } else {
                    reregister(t, cx.waker().clone());
                    io_event(99, 2, 0, false);
                    io_pending(0);
                    Poll::Pending
                }
            }
        }
    }
}

impl Drop for Sleep {
    fn drop(&mut self) {
        if let Some(t) = self.ticket {
            unschedule(t);
        }
    }
}

/// Drives `fut`, but drops it at its `n`-th Pending (n counted from 1).
pub struct CancelAfter<F> {
    fut: Option<Pin<Box<F>>>,
    left: u32,
    cancelled: bool,
}
pub fn cancel_after<F: Future>(fut: F, n: u32) -> CancelAfter<F> {
    CancelAfter { fut: Some(Box::pin(fut)), left: n, cancelled: false }
}
impl<F: Future> Future for CancelAfter<F> {
    type Output = Option<F::Output>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let this = &mut *self;
        if this.cancelled {
            return Poll::Ready(None);
        }
        match this.fut.as_mut().unwrap().as_mut().poll(cx) {
            Poll::Ready(v) => {
                this.fut = None;
                Poll::Ready(Some(v))
            }
            Poll::Pending => {
                if this.left != 0 {
                    this.left -= 1;
                    if this.left == 0 {
                        this.fut = None;
                        fault("cancel");
                        trace(|| "CANCEL future dropped while pending".into());
                        if crate::fsim::quiesce() {
                            // A file operation may still have been running. It has ended now, but whether it
                            // woke this poll is a race: move on to a fresh poll, whose waker it does not have.
                            this.cancelled = true;
                            with(|s| s.sim_waits += 1);
                            cx.waker().wake_by_ref();
                            return Poll::Pending;
                        }
                        return Poll::Ready(None);
                    }
                }
                Poll::Pending
            }
        }
    }
}

/// Decides from the tape whether to cancel this operation, and where.
pub async fn maybe_cancel<F: Future>(fut: F, permille: u32) -> Option<F::Output> {
    if chance(permille) {
        let n = 1 + small(12);
        cancel_after(fut, n).await
    } else {
        Some(fut.await)
    }
}
