pub use ::std::thread::{panicking, AccessError, LocalKey, Result, ThreadId};
use ::std::any::Any;
use ::std::cell::RefCell;
use ::std::collections::HashMap as StdMap;
use ::std::fmt;
use ::std::io;
use ::std::marker::PhantomData;
use ::std::num::NonZeroUsize;
use ::std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use ::std::sync::{Arc, Mutex};
use ::std::time::Duration;

struct Packet<T> {
    result: Mutex<Option<Result<T>>>,
    waiters: ::rt::Waiters,
    done: ::std::sync::atomic::AtomicBool,
}

impl<T> Packet<T> {
    fn new() -> Arc<Self> {
        Arc::new(Packet { result: Mutex::new(None), waiters: ::rt::Waiters::new(), done: ::std::sync::atomic::AtomicBool::new(false) })
    }
    fn finish(&self, r: Result<T>) {
        *self.result.lock().unwrap() = Some(r);
        self.done.store(true, ::std::sync::atomic::Ordering::SeqCst);
        self.waiters.wake_all();
    }
    fn wait(&self) {
        while !self.done.load(::std::sync::atomic::Ordering::SeqCst) {
            self.waiters.wait();
        }
    }
}

/// Runs the body of a simulated thread and records a panic.
pub fn verif_body<T>(f: impl FnOnce() -> T) -> Result<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) => {
            if !::rt::active() {
                resume_unwind(p);
            }
            ::rt::note_panic();
            Err(p)
        }
    }
}

#[derive(Clone)]
pub struct Thread {
    task: usize,
    name: Option<String>,
}

impl Thread {
    pub fn name(&self) -> Option<&str> {
        self.name.as_deref()
    }
    pub fn unpark(&self) {
        PARK.with(|p| p.borrow_mut().insert(self.task, true));
        ::rt::wake(self.task);
    }
    pub fn id(&self) -> usize {
        self.task
    }
}
impl fmt::Debug for Thread {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Thread({})", self.task)
    }
}

thread_local! {
    static PARK: RefCell<StdMap<usize, bool>> = RefCell::new(StdMap::new());
}

pub fn verif_reset() {
    PARK.with(|p| p.borrow_mut().clear());
}

pub struct JoinHandle<T> {
    packet: Arc<Packet<T>>,
    thread: Thread,
}

impl<T> JoinHandle<T> {
    pub fn join(self) -> Result<T> {
        ::rt::point("join");
        self.packet.wait();
        let r = self.packet.result.lock().unwrap().take().unwrap();
        r
    }
    pub fn thread(&self) -> &Thread {
        &self.thread
    }
    pub fn is_finished(&self) -> bool {
        ::rt::point("is_finished");
        self.packet.done.load(::std::sync::atomic::Ordering::SeqCst)
    }
}
impl<T> fmt::Debug for JoinHandle<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("JoinHandle").finish()
    }
}

fn thread_name(name: &Option<String>) -> String {
    name.clone().unwrap_or_else(|| format!("thread{}", ::rt::task_count()))
}

pub fn spawn<F, T>(f: F) -> JoinHandle<T>
where
    F: FnOnce() -> T + Send + 'static,
    T: Send + 'static,
{
    Builder::new().spawn(f).unwrap()
}

#[derive(Debug, Default)]
pub struct Builder {
    name: Option<String>,
}

impl Builder {
    pub fn new() -> Self {
        Builder { name: None }
    }
    pub fn name(mut self, name: String) -> Self {
        self.name = Some(name);
        self
    }
    pub fn stack_size(self, _: usize) -> Self {
        self
    }
    pub fn spawn<F, T>(self, f: F) -> io::Result<JoinHandle<T>>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        let packet = Packet::<T>::new();
        let p = packet.clone();
        let task = ::rt::spawn(thread_name(&self.name), move || {
            let r = verif_body(f);
            p.finish(r);
        });
        ::rt::point("spawn");
        Ok(JoinHandle { packet, thread: Thread { task, name: self.name } })
    }
    pub fn spawn_scoped<'scope, 'env, F, T>(self, scope: &'scope Scope<'scope, 'env>, f: F) -> io::Result<ScopedJoinHandle<'scope, T>>
    where
        F: FnOnce() -> T + Send + 'scope,
        T: Send + 'scope,
    {
        Ok(scope.spawn_named(self.name, f))
    }
}

pub fn current() -> Thread {
    let task = if ::rt::active() { ::rt::current() } else { 0 };
    Thread { task, name: if ::rt::active() { Some(::rt::task_name(task)) } else { None } }
}

pub fn park() {
    let me = ::rt::current();
    loop {
        if PARK.with(|p| p.borrow_mut().remove(&me)).is_some() {
            return;
        }
        ::rt::block();
    }
}

pub fn park_timeout(d: Duration) {
    let me = ::rt::current();
    if PARK.with(|p| p.borrow_mut().remove(&me)).is_some() {
        return;
    }
    ::rt::block_until(::rt::now() + d.as_nanos());
    PARK.with(|p| p.borrow_mut().remove(&me));
}

pub fn sleep(d: Duration) {
    let t = ::rt::now() + d.as_nanos();
    while ::rt::now() < t {
        ::rt::block_until(t);
    }
    if d.is_zero() {
        ::rt::yield_now();
    }
}

pub fn sleep_ms(ms: u32) {
    sleep(Duration::from_millis(ms as u64))
}

pub fn yield_now() {
    ::rt::yield_now();
}

pub fn available_parallelism() -> io::Result<NonZeroUsize> {
    Ok(NonZeroUsize::new(4).unwrap())
}

// ------------------------------------------------------------ scoped threads

pub struct Scope<'scope, 'env: 'scope> {
    packets: Mutex<Vec<Arc<dyn ScopePacket + 'scope>>>,
    _s: PhantomData<&'scope mut &'scope ()>,
    _e: PhantomData<&'env mut &'env ()>,
}

trait ScopePacket {
    fn wait(&self);
    fn panicked(&self) -> bool;
}
impl<T> ScopePacket for Packet<T> {
    fn wait(&self) {
        Packet::wait(self)
    }
    fn panicked(&self) -> bool {
        matches!(*self.result.lock().unwrap(), Some(Err(_)))
    }
}

pub struct ScopedJoinHandle<'scope, T> {
    packet: Arc<Packet<T>>,
    thread: Thread,
    _s: PhantomData<&'scope ()>,
}
impl<'scope, T> ScopedJoinHandle<'scope, T> {
    pub fn join(self) -> Result<T> {
        ::rt::point("join");
        self.packet.wait();
        let r = self.packet.result.lock().unwrap().take().unwrap();
        r
    }
    pub fn thread(&self) -> &Thread {
        &self.thread
    }
    pub fn is_finished(&self) -> bool {
        self.packet.done.load(::std::sync::atomic::Ordering::SeqCst)
    }
}

impl<'scope, 'env> Scope<'scope, 'env> {
    fn spawn_named<F, T>(&'scope self, name: Option<String>, f: F) -> ScopedJoinHandle<'scope, T>
    where
        F: FnOnce() -> T + Send + 'scope,
        T: Send + 'scope,
    {
        let packet = Packet::<T>::new();
        let p = packet.clone();
        self.packets.lock().unwrap().push(packet.clone());
        let body: Box<dyn FnOnce() + 'scope> = Box::new(move || {
            let r = verif_body(f);
            p.finish(r);
        });
        let task = unsafe { ::rt::spawn_unchecked(thread_name(&name), body) };
        ::rt::point("spawn");
        ScopedJoinHandle { packet, thread: Thread { task, name }, _s: PhantomData }
    }
    pub fn spawn<F, T>(&'scope self, f: F) -> ScopedJoinHandle<'scope, T>
    where
        F: FnOnce() -> T + Send + 'scope,
        T: Send + 'scope,
    {
        self.spawn_named(None, f)
    }
}

pub fn scope<'env, F, T>(f: F) -> T
where
    F: for<'scope> FnOnce(&'scope Scope<'scope, 'env>) -> T,
{
    let scope = Scope { packets: Mutex::new(Vec::new()), _s: PhantomData, _e: PhantomData };
    // the scope outlives every task that was spawned in it: all of them are waited for below
    let r: ::std::result::Result<T, Box<dyn Any + Send>> = {
        let s: &Scope<'_, 'env> = unsafe { &*(&scope as *const _) };
        catch_unwind(AssertUnwindSafe(|| f(s)))
    };
    if !::rt::active() {
        match r {
            Ok(v) => return v,
            Err(p) => resume_unwind(p),
        }
    }
    let packets: Vec<_> = unsafe { &*(&scope as *const Scope<'_, 'env>) }.packets.lock().unwrap().drain(..).collect();
    let mut panicked = false;
    for p in &packets {
        p.wait();
        panicked |= p.panicked();
    }
    match r {
        Err(p) => resume_unwind(p),
        Ok(_) if panicked => panic!("a scoped thread panicked"),
        Ok(v) => v,
    }
}
