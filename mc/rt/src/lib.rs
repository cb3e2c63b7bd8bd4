//! The explorer: coroutines on one OS thread, numbered choices, depth-first search.
//!
//! Every thread, runtime and task of the program under test, and every harness client, is a coroutine
//! ("task"). `point()` is a scheduling point. `choose()` is an environment choice. Both draw from one
//! choice stack, so an execution is a list of small numbers and replays exactly.

use corosensei::stack::DefaultStack;
use corosensei::{Coroutine, CoroutineResult, Yielder};
use std::any::Any;
use std::cell::{Cell, RefCell, UnsafeCell};
use std::collections::{HashSet, VecDeque};
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::{pin, Pin};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

pub type TaskId = usize;
pub type ProcId = u32;

const STACK: usize = 4 * 1024 * 1024;
const FAIR: u32 = 3000;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St {
    Run,
    Blocked,
    Low,
    Done,
}

struct Task {
    coro: Option<Box<Coroutine<(), (), (), DefaultStack>>>,
    yielder: *const Yielder<(), ()>,
    st: St,
    proc: ProcId,
    name: String,
    ready: u64,
    deadline: Option<u128>,
    stalled: bool,
    /// Left alone at the end: it stopped in a place that cannot be unwound.
    leak: bool,
    pc: u32,
    pool: Pool,
    on_worker: bool,
}

/// How an alternative is paid for.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Class {
    /// Fully enumerated.
    Free,
    /// Any non-default alternative costs one environment deviation.
    Dev,
    /// Any non-default alternative costs one preemption.
    Preempt,
    /// Any non-default alternative costs one suspension.
    Nap,
}

#[derive(Clone, Copy, Debug)]
pub struct Ch {
    pub n: u32,
    pub c: u32,
}

#[derive(Clone, Debug, Default)]
pub struct Bounds {
    pub preempt: u32,
    /// Choosing another than the longest-waiting task when one blocks also costs a preemption (delay bounding).
    pub delay: bool,
    pub dev: u32,
    /// Tasks that may be suspended, at any scheduling point, until everything else has become quiet.
    pub nap: u32,
    pub steps: u64,
}

struct Exec {
    tasks: Vec<Task>,
    current: TaskId,
    next: TaskId,
    ending: bool,
    seq: u64,
    now: u128,
    exploring: bool,
    /// Hash of where every task stands, kept while interleavings are explored.
    control: u64,
    scenario: u64,
    no_points: u32,
    steps: u64,
    moved: u64,
    live: Vec<TaskId>,
    switches: u64,
    burst: u32,
    verdict: Verdict,
    exits: Vec<(ProcId, Exit)>,
    panics: Vec<(ProcId, String)>,
    pools: Vec<PoolState>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Verdict {
    Ok,
    Pruned,
    Violation(String),
    Error(String),
}

#[derive(Default)]
struct Search {
    stack: Vec<Ch>,
    pos: usize,
    used_p: u32,
    used_d: u32,
    used_n: u32,
    bounds: Bounds,
    shard: (u32, u32),
    shard_depth: usize,
    owned: bool,
    replay: bool,
    verbose: bool,
    labels: Vec<String>,
    trace: Vec<String>,
    states: HashSet<u64>,
    outcomes: HashSet<u64>,
    transitions: u64,
    samples: Vec<String>,
    counters: std::collections::BTreeMap<String, u64>,
}

thread_local! {
    static ON_SLEEP: RefCell<Option<std::rc::Rc<dyn Fn(u128)>>> = const { RefCell::new(None) };
    static EXEC: UnsafeCell<Option<Exec>> = const { UnsafeCell::new(None) };
    static SEARCH: RefCell<Search> = RefCell::new(Search::default());
    static TEARDOWN: Cell<bool> = const { Cell::new(false) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static NAP_AT: Cell<Option<&'static str>> = const { Cell::new(None) };
    static CURRENT: Cell<Option<*mut u32>> = const { Cell::new(None) };
    static STACKS: RefCell<Vec<DefaultStack>> = const { RefCell::new(Vec::new()) };
}

/// Number of finished executions, for the watchdog thread.
pub static PROGRESS: AtomicU64 = AtomicU64::new(0);
/// Longest choice list kept in shared memory.
pub const CURRENT_MAX: usize = 60_000;

#[allow(clippy::mut_from_ref)]
fn ex() -> Option<&'static mut Exec> {
    EXEC.with(|e| unsafe { (*e.get()).as_mut().map(|e| &mut *(e as *mut Exec)) })
}

fn teardown() -> bool {
    TEARDOWN.with(|t| t.get())
}

/// Is the caller running inside a controlled task?
pub fn active() -> bool {
    !teardown() && ex().is_some()
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let payload = info.payload();
        let msg = payload
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| payload.downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".to_string());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LAST_PANIC.try_with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                *p = format!("{} at {}", msg, loc);
            }
        });
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

// ---------------------------------------------------------------- choices

fn fnv(items: impl Iterator<Item = u32>) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for i in items {
        for b in i.to_le_bytes() {
            h ^= b as u64;
            h = h.wrapping_mul(0x100000001b3);
        }
    }
    h ^ (h >> 29)
}

fn decide(n: u32, class: Class, label: &dyn Fn(u32) -> String) -> u32 {
    if n <= 1 {
        return 0;
    }
    let mut prune = false;
    let mut divergence = None;
    let c = SEARCH.with(|s| {
        let s = &mut *s.borrow_mut();
        match class {
            Class::Preempt if s.used_p >= s.bounds.preempt => return 0,
            Class::Dev if s.used_d >= s.bounds.dev => return 0,
            Class::Nap if s.used_n >= s.bounds.nap => return 0,
            _ => {}
        }
        if s.pos < s.stack.len() {
            if s.replay && s.stack[s.pos].n == 0 {
                s.stack[s.pos].n = n;
            }
            if s.stack[s.pos].n != n || s.stack[s.pos].c >= n {
                divergence = Some(format!(
                    "replay divergence at choice {}: recorded {:?}, now {} alternatives ({})",
                    s.pos,
                    s.stack[s.pos],
                    n,
                    label(0)
                ));
                return 0;
            }
        } else {
            s.stack.push(Ch { n, c: 0 });
        }
        let c = s.stack[s.pos].c;
        s.pos += 1;
        if c > 0 {
            match class {
                Class::Preempt => s.used_p += 1,
                Class::Dev => s.used_d += 1,
                Class::Nap => s.used_n += 1,
                Class::Free => {}
            }
        }
        if s.verbose {
            let l = format!("choice {}: {}/{} {}", s.pos - 1, c, n, label(c));
            s.trace.push(l.clone());
            s.labels.push(l);
        }
        if !s.replay && s.pos == s.shard_depth && s.shard.1 > 1 {
            let h = fnv(s.stack[..s.pos].iter().map(|c| c.c));
            if h % s.shard.1 as u64 != s.shard.0 as u64 {
                prune = true;
            } else {
                s.owned = true;
            }
        }
        c
    });
    if let Some(d) = divergence {
        end(Verdict::Error(d));
    }
    if prune {
        end(Verdict::Pruned);
    }
    c
}

/// An environment choice among `n` alternatives; 0 is the default.
pub fn choose(n: usize, class: Class, label: impl Fn(u32) -> String) -> usize {
    decide(n as u32, class, &label) as usize
}

pub fn free(n: usize, what: &str) -> usize {
    decide(n as u32, Class::Free, &|c| format!("{} = {}", what, c)) as usize
}

pub fn dev(n: usize, what: &str) -> usize {
    decide(n as u32, Class::Dev, &|c| format!("{} = {}", what, c)) as usize
}

/// Divides the space by the choices made up to here (for spaces split at depth 0).
pub fn shard_point() {
    let prune = SEARCH.with(|s| {
        let s = &mut *s.borrow_mut();
        if s.replay || s.shard.1 <= 1 || s.shard_depth != 0 || s.owned {
            return false;
        }
        let h = fnv(s.stack[..s.pos].iter().map(|c| c.c));
        s.owned = h % s.shard.1 as u64 == s.shard.0 as u64;
        !s.owned
    });
    if prune {
        end(Verdict::Pruned);
    }
}

/// Remaining environment deviations.
pub fn dev_left() -> u32 {
    SEARCH.with(|s| {
        let s = s.borrow();
        s.bounds.dev - s.used_d
    })
}

// ---------------------------------------------------------------- bookkeeping

pub fn note(text: impl FnOnce() -> String) {
    SEARCH.with(|s| {
        let s = &mut *s.borrow_mut();
        if s.verbose {
            s.trace.push(text());
        }
    });
}

pub fn verbose() -> bool {
    SEARCH.with(|s| s.borrow().verbose)
}

/// Records a visited state (canonical hash).
pub fn state(h: u64) {
    SEARCH.with(|s| {
        s.borrow_mut().states.insert(h);
    });
}

/// Records a distinct observed outcome.
pub fn outcome(h: u64) {
    SEARCH.with(|s| {
        s.borrow_mut().outcomes.insert(h);
    });
}

pub fn transitions(n: u64) {
    SEARCH.with(|s| s.borrow_mut().transitions += n);
}

pub fn count(name: &str, n: u64) {
    progress();
    SEARCH.with(|s| {
        let s = &mut *s.borrow_mut();
        match s.counters.get_mut(name) {
            Some(c) => *c += n,
            None => {
                s.counters.insert(name.to_string(), n);
            }
        }
    });
}

pub fn sample(max: usize, text: impl FnOnce() -> String) {
    SEARCH.with(|s| {
        let s = &mut *s.borrow_mut();
        if s.samples.len() < max {
            let t = text();
            if !s.samples.contains(&t) {
                s.samples.push(t);
            }
        }
    });
}

pub fn choices() -> Vec<u32> {
    SEARCH.with(|s| {
        let s = s.borrow();
        s.stack[..s.pos].iter().map(|c| c.c).collect()
    })
}

pub fn hash64(bytes: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325 ^ bytes.len() as u64;
    let mut it = bytes.chunks_exact(8);
    for c in it.by_ref() {
        h = (h ^ u64::from_le_bytes(c.try_into().unwrap())).wrapping_mul(0x9e3779b97f4a7c15);
        h ^= h >> 29;
    }
    for b in it.remainder() {
        h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
    }
    h = (h ^ (h >> 31)).wrapping_mul(0xbf58476d1ce4e5b9);
    h ^ (h >> 32)
}

// ---------------------------------------------------------------- tasks

fn switch_out() {
    let e = ex().unwrap();
    e.burst = 0;
    let y = e.tasks[e.current].yielder;
    unsafe { (*y).suspend(()) };
}

fn end(v: Verdict) -> ! {
    if let Some(e) = ex() {
        if e.verdict == Verdict::Ok {
            e.verdict = v;
        }
        e.ending = true;
        switch_out();
    }
    unreachable!("execution resumed after its end")
}

/// Reports a violation of the property and ends the execution.
pub fn fail(msg: impl Into<String>) -> ! {
    end(Verdict::Violation(msg.into()))
}

/// Reports a harness error (not a verdict) and ends the execution.
pub fn error(msg: impl Into<String>) -> ! {
    end(Verdict::Error(msg.into()))
}

fn new_stack() -> DefaultStack {
    STACKS.with(|s| s.borrow_mut().pop()).unwrap_or_else(|| DefaultStack::new(STACK).expect("coroutine stack"))
}

fn spawn_in(proc: ProcId, name: String, f: Box<dyn FnOnce()>) -> TaskId {
    let e = ex().expect("spawn outside an execution");
    let id = e.tasks.len();
    let coro = Box::new(Coroutine::with_stack(new_stack(), move |y: &Yielder<(), ()>, ()| {
        ex().unwrap().tasks[id].yielder = y as *const _;
        f();
    }));
    e.seq += 1;
    let ready = e.seq;
    e.tasks.push(Task { coro: Some(coro), yielder: std::ptr::null(), st: St::Run, proc, name, ready, deadline: None, stalled: false, leak: false, pc: 0, pool: 0, on_worker: false });
    e.live.push(id);
    id
}

/// Spawns a task in the same process as the caller.
pub fn spawn(name: impl Into<String>, f: impl FnOnce() + 'static) -> TaskId {
    let proc = ex().expect("spawn outside an execution").tasks[current()].proc;
    spawn_in(proc, name.into(), Box::new(f))
}

/// Like `spawn`, for closures whose captures the caller keeps alive until the task is done.
///
/// # Safety
/// The caller must not return before the task has finished.
pub unsafe fn spawn_unchecked<'a>(name: impl Into<String>, f: Box<dyn FnOnce() + 'a>) -> TaskId {
    let f: Box<dyn FnOnce() + 'static> = std::mem::transmute(f);
    let proc = ex().expect("spawn outside an execution").tasks[current()].proc;
    spawn_in(proc, name.into(), f)
}

/// Spawns a task as the first of a new simulated process.
pub fn spawn_proc(proc: ProcId, name: impl Into<String>, f: impl FnOnce() + 'static) -> TaskId {
    spawn_in(proc, name.into(), Box::new(f))
}

pub fn current() -> TaskId {
    ex().expect("no execution").current
}

pub fn current_proc() -> ProcId {
    let e = ex().expect("no execution");
    e.tasks[e.current].proc
}

pub fn task_name(id: TaskId) -> String {
    ex().unwrap().tasks[id].name.clone()
}

pub fn is_done(id: TaskId) -> bool {
    ex().unwrap().tasks[id].st == St::Done
}

/// Kills every task of a simulated process. If the caller belongs to it, does not return.
pub fn kill_proc(proc: ProcId) {
    let e = ex().unwrap();
    for t in e.tasks.iter_mut() {
        if t.proc == proc {
            t.st = St::Done;
        }
    }
    // whoever waits for the dead process looks again
    for i in 0..e.tasks.len() {
        let t = &ex().unwrap().tasks[i];
        if t.proc != proc && t.st == St::Blocked && t.deadline.is_none() && !t.stalled {
            wake(i);
        }
    }
    let e = ex().unwrap();
    if e.tasks[e.current].proc == proc {
        pick_after_block();
        switch_out();
        unreachable!("killed task resumed");
    }
}

/// Runnable tasks other than `not`, first-come first-served.
fn runnable(e: &Exec, not: Option<TaskId>) -> Vec<TaskId> {
    let mut v: Vec<TaskId> = e.live.iter().copied().filter(|&i| e.tasks[i].st == St::Run && Some(i) != not).collect();
    v.sort_by_key(|&i| e.tasks[i].ready);
    v
}

/// Chooses the next task when the current one cannot go on.
fn pick_after_block() {
    loop {
        let e = ex().unwrap();
        let v = runnable(e, None);
        if !v.is_empty() {
            let k = if e.exploring && v.len() > 1 {
                decide(v.len() as u32, if SEARCH.with(|s| s.borrow().bounds.delay) { Class::Preempt } else { Class::Free }, &|c| {
                    let e = ex().unwrap();
                    format!("run {} (others {:?})", e.tasks[v[c as usize]].name, v.iter().map(|&i| e.tasks[i].name.clone()).collect::<Vec<_>>())
                }) as usize
            } else {
                0
            };
            let e = ex().unwrap();
            e.next = v[k];
            return;
        }
        // stalled tasks come after everything else has become quiet, waiting drivers first
        let mut low: Vec<TaskId> = e.live.iter().copied().filter(|&i| e.tasks[i].st == St::Low).collect();
        low.sort_by_key(|&i| e.tasks[i].ready);
        if let Some(&i) = low.first() {
            e.tasks[i].st = St::Run;
            e.next = i;
            return;
        }
        let earliest = e.live.iter().map(|&i| &e.tasks[i]).filter(|t| t.st == St::Blocked).filter_map(|t| t.deadline).min();
        if let Some(d) = earliest {
            e.now = e.now.max(d);
            wake_sleepers();
            continue;
        }
        let names: Vec<String> = e.tasks.iter().filter(|t| t.st == St::Blocked).map(|t| t.name.clone()).collect();
        e.verdict = if e.verdict == Verdict::Ok { Verdict::Violation(format!("deadlock: all tasks are blocked: {:?}", names)) } else { e.verdict.clone() };
        e.ending = true;
        return;
    }
}

fn mix(x: u64) -> u64 {
    let x = (x ^ (x >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    let x = (x ^ (x >> 27)).wrapping_mul(0x94d049bb133111eb);
    x ^ (x >> 31)
}

fn bump() {
    let e = ex().unwrap();
    e.steps += 1;
    if e.exploring {
        let id = e.current as u64;
        let t = &mut e.tasks[e.current];
        e.control ^= mix(id << 32 | t.pc as u64);
        t.pc += 1;
        e.control ^= mix(id << 32 | t.pc as u64);
        let h = e.control ^ e.scenario;
        SEARCH.with(|s| {
            let s = &mut *s.borrow_mut();
            if s.states.len() < 1_000_000 {
                s.states.insert(h);
            }
        });
    }
    let limit = SEARCH.with(|s| s.borrow().bounds.steps);
    if limit > 0 && e.steps - e.moved > limit {
        fail(format!("no progress: {} steps without reaching the end of the history (livelock or runaway loop)", e.steps));
    }
}

/// For drivers: the history goes on.
pub fn progress() {
    if let Some(e) = ex() {
        e.moved = e.steps;
        PROGRESS.fetch_add(1, Ordering::Relaxed);
    }
}

/// A scheduling point.
pub fn point(label: &str) {
    if !active() || std::thread::panicking() {
        return;
    }
    bump();
    let e = ex().unwrap();
    if e.no_points > 0 {
        return;
    }
    // fairness: no task runs on for ever while another one can run
    e.burst += 1;
    if e.burst > FAIR {
        // a thread that spins does not keep a suspended one from going on
        for &i in &e.live {
            if e.tasks[i].st == St::Low && e.tasks[i].ready == 0 {
                e.seq += 1;
                e.tasks[i].st = St::Run;
                e.tasks[i].ready = e.seq;
            }
        }
        return yield_now();
    }
    if !e.exploring {
        return;
    }
    let others = runnable(e, Some(e.current));
    if others.is_empty() {
        return;
    }
    let cur = e.current;
    if e.tasks[cur].proc != 0
        && NAP_AT.with(|l| l.get().map_or(true, |l| label.contains(l)))
        && decide(2, Class::Nap, &|c| format!("{} {} at {}", ex().unwrap().tasks[cur].name, if c == 0 { "goes on" } else { "is suspended" }, label)) == 1
    {
        let e = ex().unwrap();
        e.tasks[cur].st = St::Low;
        // before any driver
        e.tasks[cur].ready = 0;
        e.switches += 1;
        pick_after_block();
        return switch_out();
    }
    let c = decide(1 + others.len() as u32, Class::Preempt, &|c| {
        let e = ex().unwrap();
        if c == 0 {
            format!("{} continues at {}", e.tasks[cur].name, label)
        } else {
            format!("{} preempted at {} by {}", e.tasks[cur].name, label, e.tasks[others[c as usize - 1]].name)
        }
    });
    if c > 0 {
        let e = ex().unwrap();
        e.seq += 1;
        e.tasks[cur].ready = e.seq;
        e.next = others[c as usize - 1];
        e.switches += 1;
        switch_out();
    }
}

/// Suspensions only at the points whose label contains this.
pub fn suspend_only_at(label: Option<&'static str>) {
    NAP_AT.with(|l| l.set(label));
}

/// Whether some task is suspended.
pub fn suspended() -> bool {
    let e = ex().unwrap();
    e.live.iter().any(|&i| e.tasks[i].st == St::Low && e.tasks[i].ready == 0)
}

/// A polling loop gives way: everything else that can run goes first.
pub fn yield_now() {
    if !active() {
        return;
    }
    bump();
    let e = ex().unwrap();
    if runnable(e, Some(e.current)).is_empty() {
        return;
    }
    e.seq += 1;
    e.tasks[e.current].ready = e.seq;
    let cur = e.current;
    e.tasks[cur].st = St::Blocked;
    pick_after_block();
    let e = ex().unwrap();
    e.tasks[cur].st = St::Run;
    switch_out();
}

/// Blocks the current task until `wake`. Spurious wake-ups happen.
pub fn block() {
    if !active() {
        panic!("blocking operation outside an execution would hang");
    }
    bump();
    let e = ex().unwrap();
    e.tasks[e.current].st = St::Blocked;
    e.switches += 1;
    pick_after_block();
    switch_out();
    let e = ex().unwrap();
    e.tasks[e.current].deadline = None;
}

/// Blocks until woken or until the virtual clock reaches `deadline` (ns).
pub fn block_until(deadline: u128) {
    let e = ex().expect("no execution");
    if deadline <= e.now {
        return yield_now();
    }
    let left = deadline - e.now;
    let h = ON_SLEEP.with(|h| h.borrow().clone());
    if let Some(h) = h {
        h(left);
        if deadline <= now() {
            return;
        }
    }
    let e = ex().expect("no execution");
    e.tasks[e.current].deadline = Some(deadline);
    block();
}

/// Called whenever a task is about to sleep, with the nanoseconds it means to sleep.
pub fn on_sleep(h: Option<std::rc::Rc<dyn Fn(u128)>>) {
    ON_SLEEP.with(|x| *x.borrow_mut() = h);
}

pub fn wake(id: TaskId) {
    if !active() {
        return;
    }
    let e = ex().unwrap();
    if id < e.tasks.len() && e.tasks[id].st == St::Blocked {
        e.seq += 1;
        e.tasks[id].st = St::Run;
        e.tasks[id].ready = e.seq;
    }
}

fn wake_sleepers() {
    let e = ex().unwrap();
    let now = e.now;
    let mut due: Vec<(u128, TaskId)> =
        e.live.iter().copied().filter_map(|i| if e.tasks[i].st == St::Blocked { e.tasks[i].deadline.filter(|&d| d <= now).map(|d| (d, i)) } else { None }).collect();
    due.sort();
    for (_, i) in due {
        wake(i);
    }
}

/// Waits until every other task is blocked (or stalled).
pub fn quiesce() {
    let e = ex().expect("no execution");
    let tasks = &e.tasks;
    e.live.retain(|&i| tasks[i].st != St::Done);
    e.seq += 1;
    let cur = e.current;
    e.tasks[cur].st = St::Low;
    // drivers come before stalled tasks
    e.tasks[cur].ready = e.seq;
    pick_after_block();
    switch_out();
}

/// The current task makes no progress until everything else, drivers included, is quiet
/// (`release_stalls` or the end of all other activity resumes it).
pub fn stall() {
    let e = ex().expect("no execution");
    let cur = e.current;
    e.tasks[cur].stalled = true;
    e.tasks[cur].st = St::Blocked;
    loop {
        pick_after_block();
        switch_out();
        let e = ex().unwrap();
        if !e.tasks[cur].stalled {
            return;
        }
        e.tasks[cur].st = St::Blocked;
    }
}

pub fn stalled_tasks() -> usize {
    ex().unwrap().tasks.iter().filter(|t| t.stalled && t.st == St::Blocked).count()
}

pub fn release_stalls() {
    let e = ex().unwrap();
    let ids: Vec<TaskId> = e.live.iter().copied().filter(|&i| e.tasks[i].stalled).collect();
    for i in ids {
        ex().unwrap().tasks[i].stalled = false;
        wake(i);
    }
}

/// Virtual nanoseconds since the start of the execution.
pub fn now() -> u128 {
    ex().map(|e| e.now).unwrap_or(0)
}

/// Advances the virtual clock and wakes the sleepers that are due.
pub fn advance(ns: u128) {
    ex().unwrap().now += ns;
    wake_sleepers();
}

/// Deadlines of all sleeping tasks, relative to now.
pub fn pending_sleeps() -> Vec<u128> {
    let e = ex().unwrap();
    let mut v: Vec<u128> = e.live.iter().map(|&i| &e.tasks[i]).filter(|t| t.st == St::Blocked).filter_map(|t| t.deadline).map(|d| d - e.now.min(d)).collect();
    v.sort();
    v
}

/// Opens or closes the window in which interleavings are explored.
pub fn explore_interleavings(on: bool) {
    let e = ex().unwrap();
    e.exploring = on;
    if on {
        e.scenario = fnv(choices().into_iter());
    }
}

/// Runs `f` without scheduling points.
pub fn atomically<R>(f: impl FnOnce() -> R) -> R {
    if let Some(e) = ex() {
        e.no_points += 1;
    }
    let r = f();
    if let Some(e) = ex() {
        e.no_points -= 1;
    }
    r
}

pub fn steps() -> u64 {
    ex().map(|e| e.steps).unwrap_or(0)
}

// ---------------------------------------------------------------- futures

struct TaskWaker {
    task: TaskId,
    epoch: u64,
    woken: AtomicBool,
}

static EPOCH: AtomicU64 = AtomicU64::new(0);

impl Wake for TaskWaker {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.woken.store(true, Ordering::SeqCst);
        if active() && EPOCH.load(Ordering::SeqCst) == self.epoch {
            wake(self.task);
        }
    }
}

/// Runs a future to completion on the current task.
pub fn block_on<F: Future>(f: F) -> F::Output {
    let w = Arc::new(TaskWaker { task: current(), epoch: EPOCH.load(Ordering::SeqCst), woken: AtomicBool::new(false) });
    let waker = Waker::from(w.clone());
    let mut cx = Context::from_waker(&waker);
    let mut f = pin!(f);
    loop {
        if let Poll::Ready(r) = f.as_mut().poll(&mut cx) {
            return r;
        }
        while !w.woken.swap(false, Ordering::SeqCst) {
            block();
        }
    }
}

// ---------------------------------------------------------------- workers

/// The worker threads of an asynchronous runtime; 0 stands for "as many as needed".
pub type Pool = usize;

struct PoolState {
    free: usize,
    waiting: VecDeque<TaskId>,
}

/// A runtime with `workers` threads.
pub fn new_pool(workers: usize) -> Pool {
    match ex() {
        Some(e) => {
            e.pools.push(PoolState { free: workers.max(1), waiting: VecDeque::new() });
            e.pools.len()
        }
        None => 0,
    }
}

/// The runtime whose code the current task is executing.
pub fn current_pool() -> Pool {
    ex().map(|e| e.tasks[e.current].pool).unwrap_or(0)
}

fn acquire(pool: Pool) {
    while ex().unwrap().pools[pool - 1].free == 0 {
        let me = current();
        ex().unwrap().pools[pool - 1].waiting.push_back(me);
        block();
        ex().unwrap().pools[pool - 1].waiting.retain(|&t| t != me);
    }
    ex().unwrap().pools[pool - 1].free -= 1;
}
fn release(pool: Pool) {
    let e = ex().unwrap();
    e.pools[pool - 1].free += 1;
    let w = e.pools[pool - 1].waiting.front().copied();
    if let Some(w) = w {
        wake(w);
    }
}

/// What a task was doing before it entered a runtime.
pub struct Entered {
    task: TaskId,
    before: (Pool, bool),
}
impl Drop for Entered {
    fn drop(&mut self) {
        if !active() {
            return;
        }
        let t = &mut ex().unwrap().tasks[self.task];
        let now = (t.pool, t.on_worker);
        (t.pool, t.on_worker) = self.before;
        if now.1 && now != self.before {
            release(now.0);
        }
    }
}
fn enter(pool: Pool, worker: bool) -> Entered {
    let e = ex().unwrap();
    let me = e.current;
    let t = &mut e.tasks[me];
    let before = (t.pool, t.on_worker);
    (t.pool, t.on_worker) = (pool, worker);
    Entered { task: me, before }
}

/// Executes `f` on a worker of the runtime: whatever blocks in it keeps the worker busy.
pub fn on_worker<R>(pool: Pool, f: impl FnOnce() -> R) -> R {
    if pool == 0 || !active() {
        return f();
    }
    let t = &ex().unwrap().tasks[current()];
    if (t.pool, t.on_worker) == (pool, true) {
        return f();
    }
    acquire(pool);
    let _e = enter(pool, true);
    f()
}

/// The current thread is in the context of the runtime, but not one of its workers.
pub fn beside_workers(pool: Pool) -> Option<Entered> {
    if !active() {
        return None;
    }
    Some(enter(pool, false))
}

/// Executes `f` while the worker is handed to other tasks.
pub fn off_worker<R>(f: impl FnOnce() -> R) -> R {
    if !active() {
        return f();
    }
    let t = &ex().unwrap().tasks[current()];
    let pool = t.pool;
    if pool == 0 || !t.on_worker {
        return f();
    }
    struct Back(Pool);
    impl Drop for Back {
        fn drop(&mut self) {
            if active() {
                let me = current();
                if !std::thread::panicking() {
                    acquire(self.0);
                    ex().unwrap().tasks[me].on_worker = true;
                }
            }
        }
    }
    release(pool);
    let me = current();
    ex().unwrap().tasks[me].on_worker = false;
    let _b = Back(pool);
    f()
}

/// A future that is polled on the workers of a runtime.
pub struct OnWorker<F>(pub Pool, pub Pin<Box<F>>);
impl<F: Future> Future for OnWorker<F> {
    type Output = F::Output;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        let pool = self.0;
        on_worker(pool, || self.1.as_mut().poll(cx))
    }
}

// ---------------------------------------------------------------- wait lists

/// Tasks waiting for something; used by the shims.
#[derive(Default, Debug)]
pub struct Waiters(std::sync::Mutex<VecDeque<(u64, TaskId)>>);

impl Waiters {
    pub const fn new() -> Self {
        Self(std::sync::Mutex::new(VecDeque::new()))
    }
    /// Blocks the current task on this list.
    pub fn wait(&self) {
        if !active() {
            panic!("wait outside an execution");
        }
        let me = current();
        self.0.lock().unwrap().push_back((EPOCH.load(Ordering::SeqCst), me));
        block();
        self.0.lock().unwrap().retain(|&(_, t)| t != me);
    }
    pub fn wait_until(&self, deadline: u128) {
        let me = current();
        self.0.lock().unwrap().push_back((EPOCH.load(Ordering::SeqCst), me));
        block_until(deadline);
        self.0.lock().unwrap().retain(|&(_, t)| t != me);
    }
    fn take(&self) -> Vec<TaskId> {
        let ep = EPOCH.load(Ordering::SeqCst);
        match self.0.lock() {
            Ok(mut q) => q.drain(..).filter(|&(e, _)| e == ep).map(|(_, t)| t).collect(),
            Err(_) => Vec::new(),
        }
    }
    pub fn wake_all(&self) {
        for t in self.take() {
            wake(t);
        }
    }
    pub fn wake_one(&self) {
        let ep = EPOCH.load(Ordering::SeqCst);
        let t = {
            let mut q = self.0.lock().unwrap();
            q.retain(|&(e, _)| e == ep);
            q.pop_front()
        };
        if let Some((_, t)) = t {
            wake(t);
        }
    }
}

// ---------------------------------------------------------------- one execution

pub struct RunInfo {
    pub verdict: Verdict,
    pub steps: u64,
    pub switches: u64,
}

fn payload_text(p: &(dyn Any + Send)) -> String {
    p.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| p.downcast_ref::<String>().cloned()).unwrap_or_else(|| "?".into())
}

fn run_one(body: &dyn Fn()) -> RunInfo {
    EPOCH.fetch_add(1, Ordering::SeqCst);
    let e = Exec {
        tasks: Vec::new(),
        current: 0,
        next: 0,
        ending: false,
        seq: 0,
        now: 0,
        exploring: false,
        control: 0,
        scenario: 0,
        no_points: 0,
        steps: 0,
        moved: 0,
        live: Vec::new(),
        switches: 0,
        burst: 0,
        verdict: Verdict::Ok,
        exits: Vec::new(),
        panics: Vec::new(),
        pools: Vec::new(),
    };
    EXEC.with(|c| unsafe { *c.get() = Some(e) });
    {
        let body: &'static dyn Fn() = unsafe { std::mem::transmute(body) };
        spawn_in(
            0,
            "driver".into(),
            Box::new(move || {
                if let Err(p) = catch_unwind(AssertUnwindSafe(body)) {
                    if p.is::<()>() || teardown() {
                        std::panic::resume_unwind(p);
                    }
                    let e = ex().unwrap();
                    if e.verdict == Verdict::Ok {
                        e.verdict = Verdict::Error(format!("harness panic: {} ({})", payload_text(&*p), last_panic()));
                    }
                }
                ex().unwrap().ending = true;
            }),
        );
    }
    loop {
        let e = ex().unwrap();
        if e.ending {
            break;
        }
        let id = e.next;
        e.current = id;
        let coro = &mut **e.tasks[id].coro.as_mut().unwrap() as *mut Coroutine<(), (), (), DefaultStack>;
        let r = catch_unwind(AssertUnwindSafe(|| unsafe { (*coro).resume(()) }));
        match r {
            Ok(CoroutineResult::Yield(())) => {}
            Ok(CoroutineResult::Return(())) => {
                let e = ex().unwrap();
                e.tasks[id].st = St::Done;
                let c = e.tasks[id].coro.take().unwrap();
                STACKS.with(|s| s.borrow_mut().push(c.into_stack()));
                if !e.ending {
                    // a finished task cannot hold the scheduler: choices here are made on the root
                    let v = runnable(e, None);
                    if v.len() > 1 && e.exploring {
                        root_pick(v);
                    } else {
                        pick_after_block();
                    }
                }
            }
            Err(p) => {
                let e = ex().unwrap();
                e.tasks[id].st = St::Done;
                e.tasks[id].coro = None;
                if e.verdict == Verdict::Ok {
                    e.verdict = Verdict::Error(format!("task {} panicked: {} ({})", e.tasks[id].name, payload_text(&*p), last_panic()));
                }
                e.ending = true;
            }
        }
    }
    // tear down what is left
    TEARDOWN.with(|t| t.set(true));
    let e = ex().unwrap();
    let info = RunInfo { verdict: e.verdict.clone(), steps: e.steps, switches: e.switches };
    for i in (0..e.tasks.len()).rev() {
        if let Some(mut c) = e.tasks[i].coro.take() {
            if e.tasks[i].leak {
                std::mem::forget(c);
                continue;
            }
            if c.started() && !c.done() {
                let _ = catch_unwind(AssertUnwindSafe(|| c.force_unwind()));
            }
            if c.done() || !c.started() {
                if !c.started() {
                    drop(c);
                } else {
                    STACKS.with(|s| s.borrow_mut().push(c.into_stack()));
                }
            } else {
                std::mem::forget(c);
            }
        }
    }
    EXEC.with(|c| unsafe {
        let e = (*c.get()).take();
        drop(e);
    });
    TEARDOWN.with(|t| t.set(false));
    info
}

/// One execution in a process of its own; what it found is merged into this one.
fn run_isolated(body: &dyn Fn(), secs: u64) -> RunInfo {
    let mut fds = [0i32; 2];
    unsafe {
        if libc::pipe(fds.as_mut_ptr()) != 0 {
            return RunInfo { verdict: Verdict::Error("pipe".into()), steps: 0, switches: 0 };
        }
    }
    let pid = unsafe { libc::fork() };
    if pid < 0 {
        return RunInfo { verdict: Verdict::Error("fork".into()), steps: 0, switches: 0 };
    }
    if pid == 0 {
        SEARCH.with(|s| {
            let s = &mut *s.borrow_mut();
            s.states.clear();
            s.outcomes.clear();
            s.counters.clear();
            s.samples.clear();
            s.transitions = 0;
        });
        let info = run_one(body);
        let (tag, text) = match &info.verdict {
            Verdict::Ok => (0u64, ""),
            Verdict::Pruned => (1, ""),
            Verdict::Violation(t) => (2, t.as_str()),
            Verdict::Error(t) => (3, t.as_str()),
        };
        let mut v: Vec<u8> = Vec::new();
        fn num(v: &mut Vec<u8>, n: u64) {
            v.extend_from_slice(&n.to_le_bytes());
        }
        fn text_(v: &mut Vec<u8>, t: &str) {
            num(v, t.len() as u64);
            v.extend_from_slice(t.as_bytes());
        }
        num(&mut v, tag);
        text_(&mut v, text);
        num(&mut v, info.steps);
        num(&mut v, info.switches);
        SEARCH.with(|s| {
            let s = s.borrow();
            num(&mut v, s.stack.len() as u64);
            for c in &s.stack {
                num(&mut v, c.n as u64);
                num(&mut v, c.c as u64);
            }
            num(&mut v, s.pos as u64);
            num(&mut v, s.owned as u64);
            num(&mut v, s.transitions);
            num(&mut v, s.states.len() as u64);
            s.states.iter().for_each(|&x| num(&mut v, x));
            num(&mut v, s.outcomes.len() as u64);
            s.outcomes.iter().for_each(|&x| num(&mut v, x));
            num(&mut v, s.samples.len() as u64);
            s.samples.iter().for_each(|x| text_(&mut v, x));
            num(&mut v, s.counters.len() as u64);
            for (k, n) in &s.counters {
                text_(&mut v, k);
                num(&mut v, *n);
            }
            num(&mut v, 0xfeed);
            let mut at = 0;
            while at < v.len() {
                let n = unsafe { libc::write(fds[1], v[at..].as_ptr() as *const _, v.len() - at) };
                if n <= 0 {
                    break;
                }
                at += n as usize;
            }
        });
        unsafe { libc::_exit(0) }
    }
    unsafe { libc::close(fds[1]) };
    let mut v: Vec<u8> = Vec::new();
    let end = std::time::Instant::now() + std::time::Duration::from_secs(secs);
    let mut hang = false;
    loop {
        let left = end.saturating_duration_since(std::time::Instant::now()).as_millis() as i32;
        let mut p = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
        let r = unsafe { libc::poll(&mut p, 1, left.max(1)) };
        if r == 0 {
            hang = true;
            unsafe { libc::kill(pid, libc::SIGKILL) };
            break;
        }
        let mut b = [0u8; 65536];
        let n = unsafe { libc::read(fds[0], b.as_mut_ptr() as *mut _, b.len()) };
        if n <= 0 {
            break;
        }
        v.extend_from_slice(&b[..n as usize]);
    }
    let mut status = 0;
    unsafe {
        libc::close(fds[0]);
        libc::waitpid(pid, &mut status, 0);
    }
    if hang {
        return RunInfo { verdict: Verdict::Violation(format!("the program hangs: an execution did not end within {} s", secs)), steps: 0, switches: 0 };
    }
    if v.len() < 8 || v[v.len() - 8..] != 0xfeedu64.to_le_bytes() {
        return RunInfo { verdict: Verdict::Violation(format!("the program crashed: wait status {:#x}", status)), steps: 0, switches: 0 };
    }
    let mut at = 0;
    let mut num = |v: &[u8], skip: usize| {
        at += skip;
        let n = u64::from_le_bytes(v[at..at + 8].try_into().unwrap());
        at += 8;
        (n, at)
    };
    let (tag, _) = num(&v, 0);
    let (len, p) = num(&v, 0);
    let text = String::from_utf8_lossy(&v[p..p + len as usize]).into_owned();
    let (steps, _) = num(&v, len as usize);
    let (switches, _) = num(&v, 0);
    SEARCH.with(|s| {
        let s = &mut *s.borrow_mut();
        let (n, _) = num(&v, 0);
        s.stack.clear();
        for _ in 0..n {
            let (n, _) = num(&v, 0);
            let (c, _) = num(&v, 0);
            s.stack.push(Ch { n: n as u32, c: c as u32 });
        }
        s.pos = num(&v, 0).0 as usize;
        s.owned = num(&v, 0).0 == 1;
        s.transitions += num(&v, 0).0;
        for _ in 0..num(&v, 0).0 {
            s.states.insert(num(&v, 0).0);
        }
        for _ in 0..num(&v, 0).0 {
            s.outcomes.insert(num(&v, 0).0);
        }
        let mut skip = 0;
        for _ in 0..num(&v, 0).0 {
            let (len, p) = num(&v, skip);
            skip = len as usize;
            if s.samples.len() < 8 {
                s.samples.push(String::from_utf8_lossy(&v[p..p + skip]).into_owned());
            }
        }
        for _ in 0..num(&v, skip).0 {
            let (len, p) = num(&v, 0);
            let k = String::from_utf8_lossy(&v[p..p + len as usize]).into_owned();
            *s.counters.entry(k).or_insert(0) += num(&v, len as usize).0;
        }
    });
    let verdict = match tag {
        0 => Verdict::Ok,
        1 => Verdict::Pruned,
        2 => Verdict::Violation(text),
        _ => Verdict::Error(text),
    };
    RunInfo { verdict, steps, switches }
}

/// As `pick_after_block`, but called on the root stack, where pruning cannot suspend.
fn root_pick(v: Vec<TaskId>) {
    let mut prune = None;
    let mut diverged = false;
    let c = SEARCH.with(|s| {
        let s = &mut *s.borrow_mut();
        let n = v.len() as u32;
        if s.bounds.delay && s.used_p >= s.bounds.preempt {
            return 0;
        }
        if s.pos < s.stack.len() {
            if s.replay && s.stack[s.pos].n == 0 {
                s.stack[s.pos].n = n;
            }
            if s.stack[s.pos].n != n || s.stack[s.pos].c >= n {
                diverged = true;
                return 0;
            }
        } else {
            s.stack.push(Ch { n, c: 0 });
        }
        let c = s.stack[s.pos].c;
        s.pos += 1;
        if c > 0 && s.bounds.delay {
            s.used_p += 1;
        }
        if s.verbose {
            let e = ex().unwrap();
            let l = format!("choice {}: {}/{} run {} (after a task ended)", s.pos - 1, c, n, e.tasks[v[c as usize]].name);
            s.trace.push(l.clone());
            s.labels.push(l);
        }
        if !s.replay && s.pos == s.shard_depth && s.shard.1 > 1 {
            let h = fnv(s.stack[..s.pos].iter().map(|c| c.c));
            if h % s.shard.1 as u64 != s.shard.0 as u64 {
                prune = Some(());
            } else {
                s.owned = true;
            }
        }
        c
    });
    let e = ex().unwrap();
    if diverged {
        e.verdict = Verdict::Error("replay divergence after a task ended".into());
        e.ending = true;
    } else if prune.is_some() {
        e.verdict = Verdict::Pruned;
        e.ending = true;
    } else {
        e.next = v[c as usize];
    }
}

// ---------------------------------------------------------------- the search

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub executions: u64,
    pub pruned: u64,
    pub steps: u64,
    pub switches: u64,
    pub max_choices: usize,
    pub complete: bool,
}

pub struct SearchConfig {
    pub bounds: Bounds,
    pub shard: (u32, u32),
    pub shard_depth: usize,
    pub deadline: Option<std::time::Instant>,
    /// A process per execution, each given so many seconds.
    pub isolate: Option<u64>,
    /// Run only this choice list.
    pub only: Option<Vec<u32>>,
    /// Memory shared with the parent, which learns from it what was under way when this process died.
    pub current: Option<*mut u32>,
}

fn begin() {
    NAP_AT.with(|l| l.set(None));
    SEARCH.with(|s| {
        let s = &mut *s.borrow_mut();
        s.pos = 0;
        s.used_p = 0;
        s.used_d = 0;
        s.used_n = 0;
        s.owned = false;
        s.trace.clear();
        s.labels.clear();
        CURRENT.with(|p| {
            if let Some(p) = p.get() {
                let n = s.stack.len().min(CURRENT_MAX);
                unsafe {
                    for i in 0..n {
                        p.add(1 + i).write_volatile(s.stack[i].c);
                    }
                    p.write_volatile(n as u32 + 1);
                }
            }
        });
    });
}

/// Advances to the next choice list; false when the tree is exhausted.
fn backtrack() -> bool {
    SEARCH.with(|s| {
        let s = &mut *s.borrow_mut();
        let pos = s.pos;
        s.stack.truncate(pos);
        while let Some(l) = s.stack.last_mut() {
            if l.c + 1 < l.n {
                l.c += 1;
                return true;
            }
            s.stack.pop();
        }
        false
    })
}

/// Depth-first search over all choice lists. Stops at the first violation or error.
pub fn search(cfg: &SearchConfig, body: &dyn Fn()) -> (Stats, Option<(Verdict, Vec<u32>)>) {
    SEARCH.with(|s| {
        let s = &mut *s.borrow_mut();
        s.stack.clear();
        s.bounds = cfg.bounds.clone();
        s.shard = cfg.shard;
        s.shard_depth = cfg.shard_depth;
        s.replay = false;
        s.verbose = false;
        if let Some(l) = &cfg.only {
            s.stack = l.iter().map(|&c| Ch { n: 0, c }).collect();
            s.replay = true;
            s.shard = (0, 1);
        }
    });
    CURRENT.with(|p| p.set(cfg.current));
    let mut st = Stats::default();
    loop {
        begin();
        let info = match cfg.isolate {
            Some(secs) => run_isolated(body, secs),
            None => run_one(body),
        };
        PROGRESS.fetch_add(1, Ordering::SeqCst);
        st.steps += info.steps;
        st.switches += info.switches;
        let (pos, owned) = SEARCH.with(|s| {
            let s = s.borrow();
            (s.pos, s.owned)
        });
        st.max_choices = st.max_choices.max(pos);
        match info.verdict {
            Verdict::Ok => {
                // an execution with fewer choices than the shard depth belongs to one worker only
                let mine = owned || cfg.shard.1 <= 1 || {
                    let h = fnv(choices().into_iter());
                    h % cfg.shard.1 as u64 == cfg.shard.0 as u64
                };
                if mine {
                    st.executions += 1;
                } else {
                    st.pruned += 1;
                }
            }
            Verdict::Pruned => st.pruned += 1,
            v => {
                st.executions += 1;
                return (st, Some((v, choices())));
            }
        }
        if cfg.only.is_some() {
            return (st, None);
        }
        if !backtrack() {
            st.complete = true;
            return (st, None);
        }
        if let Some(d) = cfg.deadline {
            if std::time::Instant::now() > d {
                return (st, None);
            }
        }
    }
}

/// Runs one recorded choice list, keeping a readable trace.
pub fn replay(bounds: &Bounds, list: &[u32], body: &dyn Fn()) -> (Verdict, Vec<String>) {
    SEARCH.with(|s| {
        let s = &mut *s.borrow_mut();
        s.stack = list.iter().map(|&c| Ch { n: 0, c }).collect();
        s.bounds = bounds.clone();
        s.shard = (0, 1);
        s.shard_depth = 0;
        s.replay = true;
        s.verbose = true;
    });
    begin();
    let info = run_one(body);
    let trace = SEARCH.with(|s| {
        let s = &mut *s.borrow_mut();
        s.replay = false;
        s.verbose = false;
        s.trace.clone()
    });
    (info.verdict, trace)
}

pub struct Collected {
    pub states: u64,
    pub outcomes: u64,
    pub transitions: u64,
    pub samples: Vec<String>,
    pub counters: std::collections::BTreeMap<String, u64>,
    pub state_hashes: Vec<u64>,
    pub outcome_hashes: Vec<u64>,
}

pub fn collected() -> Collected {
    SEARCH.with(|s| {
        let s = s.borrow();
        Collected {
            states: s.states.len() as u64,
            outcomes: s.outcomes.len() as u64,
            transitions: s.transitions,
            samples: s.samples.clone(),
            counters: s.counters.clone(),
            state_hashes: s.states.iter().copied().collect(),
            outcome_hashes: s.outcomes.iter().copied().collect(),
        }
    })
}

// ---------------------------------------------------------------- simulated processes

/// Ends the process of the caller from a place that cannot be unwound (the allocator).
pub fn proc_abort(code: i32) -> ! {
    let e = ex().unwrap();
    let me = e.current;
    e.tasks[me].leak = true;
    note(|| "the process aborts".to_string());
    proc_exit(code)
}

/// Ends the process of the caller with an exit code.
pub fn proc_exit(code: i32) -> ! {
    let p = current_proc();
    set_exit(p, Exit::Code(code));
    kill_proc(p);
    unreachable!("a dead process goes on")
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Exit {
    /// `process::exit`, `abort` or a crash (137).
    Code(i32),
    /// `main` returned.
    Returned,
    /// `main` panicked.
    Panicked(String),
}

pub fn set_exit(p: ProcId, x: Exit) {
    let e = ex().unwrap();
    e.exits.push((p, x));
}

pub fn exit_of(p: ProcId) -> Option<Exit> {
    ex().and_then(|e| e.exits.iter().find(|(q, _)| *q == p).map(|(_, x)| x.clone()))
}

/// Called where a simulated thread or task caught a panic.
pub fn note_panic() {
    let text = last_panic();
    let p = current_proc();
    note(|| format!("{} panicked: {}", task_name(current()), text));
    ex().unwrap().panics.push((p, text));
}

pub fn panics_of(p: ProcId) -> Vec<String> {
    ex().map(|e| e.panics.iter().filter(|(q, _)| *q == p).map(|(_, t)| t.clone()).collect()).unwrap_or_default()
}

pub fn task_count() -> usize {
    ex().map(|e| e.tasks.len()).unwrap_or(0)
}

/// A waker that does nothing.
pub fn now_waker() -> Waker {
    struct Noop;
    impl Wake for Noop {
        fn wake(self: Arc<Self>) {}
    }
    Waker::from(Arc::new(Noop))
}
