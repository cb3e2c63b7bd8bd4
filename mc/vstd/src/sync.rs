pub use ::std::sync::{Arc, LazyLock, LockResult, Once, OnceLock, OnceState, PoisonError, TryLockError, TryLockResult, Weak};
use ::std::cell::UnsafeCell;
use ::std::fmt;
use ::std::ops::{Deref, DerefMut};
use ::std::sync::atomic::{AtomicBool, AtomicIsize, Ordering::SeqCst};
use ::std::time::Duration;
use ::rt::Waiters;

// ------------------------------------------------------------ Mutex

#[derive(Default)]
pub struct Mutex<T: ?Sized> {
    held: AtomicBool,
    poisoned: AtomicBool,
    waiters: Waiters,
    data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
impl<T: ?Sized> ::std::panic::UnwindSafe for Mutex<T> {}
impl<T: ?Sized> ::std::panic::RefUnwindSafe for Mutex<T> {}

pub struct MutexGuard<'a, T: ?Sized + 'a> {
    lock: &'a Mutex<T>,
    panicking: bool,
    _not_send: ::std::marker::PhantomData<*const ()>,
}
unsafe impl<T: ?Sized + Sync> Sync for MutexGuard<'_, T> {}

impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self {
        Mutex { held: AtomicBool::new(false), poisoned: AtomicBool::new(false), waiters: Waiters::new(), data: UnsafeCell::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        let p = self.poisoned.load(SeqCst);
        let d = self.data.into_inner();
        if p {
            Err(PoisonError::new(d))
        } else {
            Ok(d)
        }
    }
}
impl<T: ?Sized> Mutex<T> {
    fn guard(&self) -> LockResult<MutexGuard<'_, T>> {
        let g = MutexGuard { lock: self, panicking: ::std::thread::panicking(), _not_send: ::std::marker::PhantomData };
        if self.poisoned.load(SeqCst) {
            Err(PoisonError::new(g))
        } else {
            Ok(g)
        }
    }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        ::rt::point("mutex.lock");
        while self.held.load(SeqCst) && ::rt::active() {
            self.waiters.wait();
        }
        self.held.store(true, SeqCst);
        self.guard()
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        ::rt::point("mutex.try_lock");
        if self.held.load(SeqCst) {
            return Err(TryLockError::WouldBlock);
        }
        self.held.store(true, SeqCst);
        self.guard().map_err(TryLockError::Poisoned)
    }
    pub fn is_poisoned(&self) -> bool {
        self.poisoned.load(SeqCst)
    }
    pub fn clear_poison(&self) {
        self.poisoned.store(false, SeqCst);
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        let p = self.poisoned.load(SeqCst);
        let d = self.data.get_mut();
        if p {
            Err(PoisonError::new(d))
        } else {
            Ok(d)
        }
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Mutex::new(t)
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.lock.data.get() }
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.lock.data.get() }
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        if !self.panicking && ::std::thread::panicking() {
            self.lock.poisoned.store(true, SeqCst);
        }
        self.lock.held.store(false, SeqCst);
        self.lock.waiters.wake_all();
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("Mutex").finish_non_exhaustive()
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized + fmt::Display> fmt::Display for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}

// ------------------------------------------------------------ Condvar

#[derive(Debug, Default)]
pub struct Condvar {
    waiters: Waiters,
}

#[derive(Debug, PartialEq, Eq, Copy, Clone)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(&self) -> bool {
        self.0
    }
}

impl Condvar {
    pub const fn new() -> Self {
        Condvar { waiters: Waiters::new() }
    }
    pub fn wait<'a, T>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        let m = g.lock;
        drop(g);
        self.waiters.wait();
        m.lock()
    }
    pub fn wait_while<'a, T, F>(&self, mut g: MutexGuard<'a, T>, mut f: F) -> LockResult<MutexGuard<'a, T>>
    where
        F: FnMut(&mut T) -> bool,
    {
        while f(&mut *g) {
            g = self.wait(g)?;
        }
        Ok(g)
    }
    pub fn wait_timeout<'a, T>(&self, g: MutexGuard<'a, T>, d: Duration) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        let m = g.lock;
        drop(g);
        let t = ::rt::now() + d.as_nanos();
        self.waiters.wait_until(t);
        let out = WaitTimeoutResult(::rt::now() >= t);
        match m.lock() {
            Ok(g) => Ok((g, out)),
            Err(e) => Err(PoisonError::new((e.into_inner(), out))),
        }
    }
    pub fn wait_timeout_while<'a, T, F>(&self, mut g: MutexGuard<'a, T>, d: Duration, mut f: F) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)>
    where
        F: FnMut(&mut T) -> bool,
    {
        let t = ::rt::now() + d.as_nanos();
        loop {
            if !f(&mut *g) {
                return Ok((g, WaitTimeoutResult(false)));
            }
            if ::rt::now() >= t {
                return Ok((g, WaitTimeoutResult(true)));
            }
            g = self.wait_timeout(g, Duration::from_nanos((t - ::rt::now()) as u64))?.0;
        }
    }
    pub fn notify_one(&self) {
        ::rt::point("condvar.notify");
        self.waiters.wake_one();
    }
    pub fn notify_all(&self) {
        ::rt::point("condvar.notify");
        self.waiters.wake_all();
    }
}

// ------------------------------------------------------------ RwLock

#[derive(Default)]
pub struct RwLock<T: ?Sized> {
    state: AtomicIsize,
    poisoned: AtomicBool,
    waiters: Waiters,
    data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
impl<T: ?Sized> ::std::panic::UnwindSafe for RwLock<T> {}
impl<T: ?Sized> ::std::panic::RefUnwindSafe for RwLock<T> {}

pub struct RwLockReadGuard<'a, T: ?Sized + 'a>(&'a RwLock<T>, ::std::marker::PhantomData<*const ()>);
pub struct RwLockWriteGuard<'a, T: ?Sized + 'a>(&'a RwLock<T>, bool, ::std::marker::PhantomData<*const ()>);
unsafe impl<T: ?Sized + Sync> Sync for RwLockReadGuard<'_, T> {}
unsafe impl<T: ?Sized + Sync> Sync for RwLockWriteGuard<'_, T> {}

impl<T> RwLock<T> {
    pub const fn new(t: T) -> Self {
        RwLock { state: AtomicIsize::new(0), poisoned: AtomicBool::new(false), waiters: Waiters::new(), data: UnsafeCell::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        Ok(self.data.into_inner())
    }
}
impl<T: ?Sized> RwLock<T> {
    fn res<G>(&self, g: G) -> LockResult<G> {
        if self.poisoned.load(SeqCst) {
            Err(PoisonError::new(g))
        } else {
            Ok(g)
        }
    }
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        ::rt::point("rwlock.read");
        while self.state.load(SeqCst) < 0 && ::rt::active() {
            self.waiters.wait();
        }
        self.state.fetch_add(1, SeqCst);
        self.res(RwLockReadGuard(self, ::std::marker::PhantomData))
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        ::rt::point("rwlock.write");
        while self.state.load(SeqCst) != 0 && ::rt::active() {
            self.waiters.wait();
        }
        self.state.store(-1, SeqCst);
        self.res(RwLockWriteGuard(self, ::std::thread::panicking(), ::std::marker::PhantomData))
    }
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
        ::rt::point("rwlock.try_read");
        if self.state.load(SeqCst) < 0 {
            return Err(TryLockError::WouldBlock);
        }
        self.state.fetch_add(1, SeqCst);
        self.res(RwLockReadGuard(self, ::std::marker::PhantomData)).map_err(TryLockError::Poisoned)
    }
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
        ::rt::point("rwlock.try_write");
        if self.state.load(SeqCst) != 0 {
            return Err(TryLockError::WouldBlock);
        }
        self.state.store(-1, SeqCst);
        self.res(RwLockWriteGuard(self, ::std::thread::panicking(), ::std::marker::PhantomData)).map_err(TryLockError::Poisoned)
    }
    pub fn is_poisoned(&self) -> bool {
        self.poisoned.load(SeqCst)
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        Ok(self.data.get_mut())
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.data.get() }
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.data.get() }
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.0.data.get() }
    }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        if self.0.state.fetch_sub(1, SeqCst) == 1 {
            self.0.waiters.wake_all();
        }
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        if !self.1 && ::std::thread::panicking() {
            self.0.poisoned.store(true, SeqCst);
        }
        self.0.state.store(0, SeqCst);
        self.0.waiters.wake_all();
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("RwLock").finish_non_exhaustive()
    }
}

// ------------------------------------------------------------ Barrier

#[derive(Debug)]
pub struct Barrier {
    n: usize,
    state: ::std::sync::Mutex<(usize, u64)>,
    waiters: Waiters,
}
#[derive(Debug)]
pub struct BarrierWaitResult(bool);
impl BarrierWaitResult {
    pub fn is_leader(&self) -> bool {
        self.0
    }
}
impl Barrier {
    pub fn new(n: usize) -> Self {
        Barrier { n, state: ::std::sync::Mutex::new((0, 0)), waiters: Waiters::new() }
    }
    pub fn wait(&self) -> BarrierWaitResult {
        ::rt::point("barrier");
        let gen = {
            let mut s = self.state.lock().unwrap();
            s.0 += 1;
            if s.0 >= self.n {
                s.0 = 0;
                s.1 += 1;
                drop(s);
                self.waiters.wake_all();
                return BarrierWaitResult(true);
            }
            s.1
        };
        while self.state.lock().unwrap().1 == gen {
            self.waiters.wait();
        }
        BarrierWaitResult(false)
    }
}

// ------------------------------------------------------------ atomics

pub mod atomic {
    pub use ::std::sync::atomic::{compiler_fence, fence, Ordering};

    macro_rules! common {
        ($name:ident, $real:ident, $t:ty) => {
            #[derive(Default)]
            pub struct $name(::std::sync::atomic::$real);
            impl $name {
                pub const fn new(v: $t) -> Self {
                    Self(::std::sync::atomic::$real::new(v))
                }
                pub fn load(&self, o: Ordering) -> $t {
                    ::rt::point("atomic.load");
                    self.0.load(o)
                }
                pub fn store(&self, v: $t, o: Ordering) {
                    ::rt::point("atomic.store");
                    self.0.store(v, o)
                }
                pub fn swap(&self, v: $t, o: Ordering) -> $t {
                    ::rt::point("atomic.swap");
                    self.0.swap(v, o)
                }
                pub fn compare_exchange(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                    ::rt::point("atomic.cas");
                    self.0.compare_exchange(a, b, s, f)
                }
                pub fn compare_exchange_weak(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                    ::rt::point("atomic.cas");
                    self.0.compare_exchange(a, b, s, f)
                }
                pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, l: Ordering, f: F) -> Result<$t, $t> {
                    ::rt::point("atomic.update");
                    self.0.fetch_update(s, l, f)
                }
                pub fn get_mut(&mut self) -> &mut $t {
                    self.0.get_mut()
                }
                pub fn into_inner(self) -> $t {
                    self.0.into_inner()
                }
            }
            impl ::std::fmt::Debug for $name {
                fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
                    self.0.fmt(f)
                }
            }
            impl From<$t> for $name {
                fn from(v: $t) -> Self {
                    Self::new(v)
                }
            }
        };
    }
    macro_rules! int {
        ($name:ident, $t:ty) => {
            common!($name, $name, $t);
            int!(@ $name, $t, fetch_add fetch_sub fetch_and fetch_nand fetch_or fetch_xor fetch_max fetch_min);
        };
        (@ $name:ident, $t:ty, $($m:ident)*) => {
            impl $name {
                $(pub fn $m(&self, v: $t, o: Ordering) -> $t {
                    ::rt::point("atomic.rmw");
                    self.0.$m(v, o)
                })*
            }
        };
    }
    common!(AtomicBool, AtomicBool, bool);
    impl AtomicBool {
        pub fn fetch_and(&self, v: bool, o: Ordering) -> bool {
            ::rt::point("atomic.rmw");
            self.0.fetch_and(v, o)
        }
        pub fn fetch_or(&self, v: bool, o: Ordering) -> bool {
            ::rt::point("atomic.rmw");
            self.0.fetch_or(v, o)
        }
        pub fn fetch_xor(&self, v: bool, o: Ordering) -> bool {
            ::rt::point("atomic.rmw");
            self.0.fetch_xor(v, o)
        }
    }
    int!(AtomicUsize, usize);
    int!(AtomicIsize, isize);
    int!(AtomicU64, u64);
    int!(AtomicI64, i64);
    int!(AtomicU32, u32);
    int!(AtomicI32, i32);
    int!(AtomicU16, u16);
    int!(AtomicI16, i16);
    int!(AtomicU8, u8);
    int!(AtomicI8, i8);
    pub use ::std::sync::atomic::AtomicPtr;
}

// ------------------------------------------------------------ mpsc

pub mod mpsc {
    pub use ::std::sync::mpsc::{RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError};
    use ::std::collections::VecDeque;
    use ::std::fmt;
    use ::std::sync::{Arc, Mutex};
    use ::std::time::Duration;
    use ::rt::Waiters;

    struct Inner<T> {
        queue: VecDeque<T>,
        senders: usize,
        receiver: bool,
        cap: Option<usize>,
        waiting: usize,
    }
    struct Chan<T> {
        inner: Mutex<Inner<T>>,
        rx: Waiters,
        tx: Waiters,
    }

    impl<T> Chan<T> {
        fn with<R>(&self, f: impl FnOnce(&mut Inner<T>) -> R) -> R {
            f(&mut self.inner.lock().unwrap_or_else(|e| e.into_inner()))
        }
        fn send(&self, t: T) -> Result<(), SendError<T>> {
            ::rt::point("channel.send");
            let mut t = Some(t);
            loop {
                let full = self.with(|i| {
                    if !i.receiver {
                        return None;
                    }
                    let room = match i.cap {
                        None => true,
                        Some(0) => i.waiting > i.queue.len(),
                        Some(c) => i.queue.len() < c,
                    };
                    if room || !::rt::active() {
                        i.queue.push_back(t.take().unwrap());
                        Some(false)
                    } else {
                        Some(true)
                    }
                });
                match full {
                    None => return Err(SendError(t.unwrap())),
                    Some(false) => {
                        self.rx.wake_all();
                        return Ok(());
                    }
                    Some(true) => self.tx.wait(),
                }
            }
        }
        fn add(&self) {
            self.with(|i| i.senders += 1);
        }
        fn sub(&self) {
            if self.with(|i| {
                i.senders -= 1;
                i.senders == 0
            }) {
                self.rx.wake_all();
            }
        }
    }

    pub struct Sender<T>(Arc<Chan<T>>);
    pub struct SyncSender<T>(Arc<Chan<T>>);
    pub struct Receiver<T>(Arc<Chan<T>>, ::std::marker::PhantomData<::std::cell::Cell<()>>);
    unsafe impl<T: Send> Send for Receiver<T> {}

    fn make<T>(cap: Option<usize>) -> (Arc<Chan<T>>, Receiver<T>) {
        let c = Arc::new(Chan {
            inner: Mutex::new(Inner { queue: VecDeque::new(), senders: 1, receiver: true, cap, waiting: 0 }),
            rx: Waiters::new(),
            tx: Waiters::new(),
        });
        (c.clone(), Receiver(c, ::std::marker::PhantomData))
    }
    pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
        let (c, r) = make(None);
        (Sender(c), r)
    }
    pub fn sync_channel<T>(bound: usize) -> (SyncSender<T>, Receiver<T>) {
        let (c, r) = make(Some(bound));
        (SyncSender(c), r)
    }

    impl<T> Sender<T> {
        pub fn send(&self, t: T) -> Result<(), SendError<T>> {
            self.0.send(t)
        }
    }
    impl<T> SyncSender<T> {
        pub fn send(&self, t: T) -> Result<(), SendError<T>> {
            self.0.send(t)
        }
        pub fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
            ::rt::point("channel.try_send");
            let mut t = Some(t);
            let r = self.0.with(|i| {
                if !i.receiver {
                    return Err(true);
                }
                let room = match i.cap {
                    None => true,
                    Some(0) => i.waiting > i.queue.len(),
                    Some(c) => i.queue.len() < c,
                };
                if room {
                    i.queue.push_back(t.take().unwrap());
                    Ok(())
                } else {
                    Err(false)
                }
            });
            match r {
                Ok(()) => {
                    self.0.rx.wake_all();
                    Ok(())
                }
                Err(true) => Err(TrySendError::Disconnected(t.unwrap())),
                Err(false) => Err(TrySendError::Full(t.unwrap())),
            }
        }
    }
    macro_rules! sender {
        ($s:ident) => {
            impl<T> Clone for $s<T> {
                fn clone(&self) -> Self {
                    self.0.add();
                    $s(self.0.clone())
                }
            }
            impl<T> Drop for $s<T> {
                fn drop(&mut self) {
                    self.0.sub();
                }
            }
            impl<T> fmt::Debug for $s<T> {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    f.debug_struct(stringify!($s)).finish_non_exhaustive()
                }
            }
        };
    }
    sender!(Sender);
    sender!(SyncSender);

    impl<T> Receiver<T> {
        fn take(&self) -> Result<T, TryRecvError> {
            let r = self.0.with(|i| match i.queue.pop_front() {
                Some(t) => Ok(t),
                None if i.senders == 0 => Err(TryRecvError::Disconnected),
                None => Err(TryRecvError::Empty),
            });
            if r.is_ok() {
                self.0.tx.wake_all();
            }
            r
        }
        pub fn try_recv(&self) -> Result<T, TryRecvError> {
            ::rt::point("channel.try_recv");
            self.take()
        }
        pub fn recv(&self) -> Result<T, RecvError> {
            ::rt::point("channel.recv");
            loop {
                match self.take() {
                    Ok(t) => return Ok(t),
                    Err(TryRecvError::Disconnected) => return Err(RecvError),
                    Err(TryRecvError::Empty) => {
                        self.0.with(|i| i.waiting += 1);
                        self.0.tx.wake_all();
                        self.0.rx.wait();
                        self.0.with(|i| i.waiting -= 1);
                    }
                }
            }
        }
        pub fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> {
            ::rt::point("channel.recv");
            let t = ::rt::now() + d.as_nanos();
            loop {
                match self.take() {
                    Ok(t) => return Ok(t),
                    Err(TryRecvError::Disconnected) => return Err(RecvTimeoutError::Disconnected),
                    Err(TryRecvError::Empty) => {
                        if ::rt::now() >= t {
                            return Err(RecvTimeoutError::Timeout);
                        }
                        self.0.with(|i| i.waiting += 1);
                        self.0.tx.wake_all();
                        self.0.rx.wait_until(t);
                        self.0.with(|i| i.waiting -= 1);
                    }
                }
            }
        }
        pub fn iter(&self) -> Iter<'_, T> {
            Iter(self)
        }
        pub fn try_iter(&self) -> TryIter<'_, T> {
            TryIter(self)
        }
    }
    impl<T> Drop for Receiver<T> {
        fn drop(&mut self) {
            let q = self.0.with(|i| {
                i.receiver = false;
                ::std::mem::take(&mut i.queue)
            });
            drop(q);
            self.0.tx.wake_all();
        }
    }
    impl<T> fmt::Debug for Receiver<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.debug_struct("Receiver").finish_non_exhaustive()
        }
    }
    pub struct Iter<'a, T>(&'a Receiver<T>);
    pub struct TryIter<'a, T>(&'a Receiver<T>);
    pub struct IntoIter<T>(Receiver<T>);
    impl<T> Iterator for Iter<'_, T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            self.0.recv().ok()
        }
    }
    impl<T> Iterator for TryIter<'_, T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            self.0.try_recv().ok()
        }
    }
    impl<T> Iterator for IntoIter<T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            self.0.recv().ok()
        }
    }
    impl<T> IntoIterator for Receiver<T> {
        type Item = T;
        type IntoIter = IntoIter<T>;
        fn into_iter(self) -> IntoIter<T> {
            IntoIter(self)
        }
    }
    impl<'a, T> IntoIterator for &'a Receiver<T> {
        type Item = T;
        type IntoIter = Iter<'a, T>;
        fn into_iter(self) -> Iter<'a, T> {
            self.iter()
        }
    }
}
