//! `tokio` as the program under test sees it. Locks and channels are the real ones, with a scheduling
//! point before every operation; runtimes, tasks and time belong to the explorer.
#![allow(warnings)]
pub use ::tokio::*;

pub use task::spawn;

pub mod runtime {
    pub use ::tokio::runtime::*;
    use std::future::Future;
    use std::io;

    #[derive(Debug)]
    pub struct Runtime(Handle, bool);

    #[derive(Clone, Debug)]
    pub struct Handle(::rt::Pool);

    #[derive(Debug)]
    pub struct TryCurrentError(());
    impl std::fmt::Display for TryCurrentError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("there is no reactor running")
        }
    }
    impl std::error::Error for TryCurrentError {}

    thread_local! {
        static FAIL: std::cell::Cell<Option<usize>> = std::cell::Cell::new(None);
        static FAILED: std::cell::Cell<bool> = std::cell::Cell::new(false);
    }
    /// The creation of a runtime fails after `n` that succeed.
    pub fn verif_fail(n: Option<usize>) {
        FAIL.with(|f| f.set(n));
        FAILED.with(|f| f.set(false));
    }
    /// Has a creation failed?
    pub fn verif_failed() -> bool {
        FAILED.with(|f| f.get())
    }
    fn create(workers: usize, current_thread: bool) -> io::Result<Runtime> {
        let new = || Runtime(Handle(::rt::new_pool(workers)), current_thread);
        FAIL.with(|f| match f.get() {
            None => Ok(new()),
            Some(0) => {
                FAILED.with(|f| f.set(true));
                Err(io::Error::from_raw_os_error(24))
            }
            Some(n) => {
                f.set(Some(n - 1));
                Ok(new())
            }
        })
    }

    impl Runtime {
        pub fn new() -> io::Result<Runtime> {
            create(usize::MAX, false)
        }
        pub fn block_on<F: Future>(&self, f: F) -> F::Output {
            if self.1 {
                // the thread is the worker
                ::rt::block_on(::rt::OnWorker(self.0 .0, Box::pin(f)))
            } else {
                self.0.block_on(f)
            }
        }
        pub fn spawn<F>(&self, f: F) -> crate::task::JoinHandle<F::Output>
        where
            F: Future + Send + 'static,
            F::Output: Send + 'static,
        {
            self.0.spawn(f)
        }
        pub fn spawn_blocking<F, R>(&self, f: F) -> crate::task::JoinHandle<R>
        where
            F: FnOnce() -> R + Send + 'static,
            R: Send + 'static,
        {
            self.0.spawn_blocking(f)
        }
        pub fn handle(&self) -> &Handle {
            &self.0
        }
        pub fn enter(&self) -> EnterGuard<'_> {
            self.0.enter()
        }
        pub fn shutdown_background(self) {}
        pub fn shutdown_timeout(self, _: std::time::Duration) {}
    }
    impl Drop for Runtime {
        fn drop(&mut self) {
            crate::task::verif_shutdown(self.0 .0);
        }
    }
    pub struct EnterGuard<'a>(Option<::rt::Entered>, std::marker::PhantomData<&'a Handle>);
    impl Handle {
        pub fn current() -> Handle {
            Self::try_current().expect("there is no reactor running, must be called from the context of a Tokio 1.x runtime")
        }
        pub fn try_current() -> Result<Handle, TryCurrentError> {
            match ::rt::current_pool() {
                0 => Err(TryCurrentError(())),
                p => Ok(Handle(p)),
            }
        }
        pub(crate) fn verif_pool(&self) -> ::rt::Pool {
            self.0
        }
        pub fn enter(&self) -> EnterGuard<'_> {
            EnterGuard(::rt::beside_workers(self.0), std::marker::PhantomData)
        }
        pub fn block_on<F: Future>(&self, f: F) -> F::Output {
            let _g = self.enter();
            ::rt::block_on(f)
        }
        pub fn spawn<F>(&self, f: F) -> crate::task::JoinHandle<F::Output>
        where
            F: Future + Send + 'static,
            F::Output: Send + 'static,
        {
            crate::task::verif_spawn(self.0, true, f)
        }
        pub fn spawn_blocking<F, R>(&self, f: F) -> crate::task::JoinHandle<R>
        where
            F: FnOnce() -> R + Send + 'static,
            R: Send + 'static,
        {
            crate::task::verif_spawn(self.0, false, async move { f() })
        }
    }

    #[derive(Debug)]
    pub struct Builder(usize, bool);
    impl Builder {
        pub fn new_multi_thread() -> Builder {
            Builder(usize::MAX, false)
        }
        pub fn new_current_thread() -> Builder {
            Builder(1, true)
        }
        pub fn worker_threads(&mut self, n: usize) -> &mut Self {
            assert!(n > 0, "Worker threads cannot be set to 0");
            if !self.1 {
                self.0 = n;
            }
            self
        }
        pub fn max_blocking_threads(&mut self, _: usize) -> &mut Self {
            self
        }
        pub fn thread_keep_alive(&mut self, _: std::time::Duration) -> &mut Self {
            self
        }
        pub fn event_interval(&mut self, _: u32) -> &mut Self {
            self
        }
        pub fn global_queue_interval(&mut self, _: u32) -> &mut Self {
            self
        }
        pub fn enable_all(&mut self) -> &mut Self {
            self
        }
        pub fn enable_io(&mut self) -> &mut Self {
            self
        }
        pub fn enable_time(&mut self) -> &mut Self {
            self
        }
        pub fn thread_name(&mut self, _: impl Into<String>) -> &mut Self {
            self
        }
        pub fn thread_stack_size(&mut self, _: usize) -> &mut Self {
            self
        }
        pub fn build(&mut self) -> io::Result<Runtime> {
            create(self.0, self.1)
        }
    }
}

pub mod task {
    use std::any::Any;
    use std::fmt;
    use std::future::Future;
    use std::pin::Pin;
    use std::sync::{Arc, Mutex};
    use std::task::{Context, Poll, Waker};

    struct Shared<T> {
        result: Option<Result<T, JoinError>>,
        done: bool,
        aborted: bool,
        waker: Option<Waker>,
        inner: Option<Waker>,
    }

    pub struct JoinHandle<T>(Arc<Mutex<Shared<T>>>);

    pub struct JoinError(Option<Box<dyn Any + Send + 'static>>);
    impl JoinError {
        pub fn is_panic(&self) -> bool {
            self.0.is_some()
        }
        pub fn is_cancelled(&self) -> bool {
            self.0.is_none()
        }
        pub fn into_panic(self) -> Box<dyn Any + Send + 'static> {
            self.0.unwrap()
        }
    }
    impl fmt::Debug for JoinError {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str(if self.0.is_some() { "JoinError::Panic" } else { "JoinError::Cancelled" })
        }
    }
    impl fmt::Display for JoinError {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            fmt::Debug::fmt(self, f)
        }
    }
    impl std::error::Error for JoinError {}

    impl<T> JoinHandle<T> {
        pub fn abort(&self) {
            self.0.stop()
        }
        pub fn is_finished(&self) -> bool {
            self.0.lock().unwrap().done
        }
    }
    impl<T> Future for JoinHandle<T> {
        type Output = Result<T, JoinError>;
        fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            let mut s = self.0.lock().unwrap();
            match s.result.take() {
                Some(r) => Poll::Ready(r),
                None => {
                    s.waker = Some(cx.waker().clone());
                    Poll::Pending
                }
            }
        }
    }
    impl<T> Unpin for JoinHandle<T> {}

    struct Abortable<F: Future>(Pin<Box<F>>, Arc<Mutex<Shared<F::Output>>>);
    impl<F: Future> Future for Abortable<F> {
        type Output = Option<F::Output>;
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            {
                let mut s = self.1.lock().unwrap();
                if s.aborted {
                    return Poll::Ready(None);
                }
                s.inner = Some(cx.waker().clone());
            }
            self.0.as_mut().poll(cx).map(Some)
        }
    }

    fn finish<T>(s: &Arc<Mutex<Shared<T>>>, r: Result<T, JoinError>) {
        let w = {
            let mut s = s.lock().unwrap();
            s.result = Some(r);
            s.done = true;
            s.waker.take()
        };
        if let Some(w) = w {
            w.wake();
        }
    }

    trait Stop {
        fn stop(&self);
    }
    impl<T> Stop for Mutex<Shared<T>> {
        fn stop(&self) {
            let w = {
                let mut s = self.lock().unwrap();
                s.aborted = true;
                s.inner.clone()
            };
            if let Some(w) = w {
                w.wake();
            }
        }
    }
    thread_local! {
        static TASKS: std::cell::RefCell<Vec<(::rt::Pool, std::sync::Weak<dyn Stop>)>> = const { std::cell::RefCell::new(Vec::new()) };
    }
    pub fn verif_reset() {
        TASKS.with(|t| t.borrow_mut().clear());
    }
    /// The runtime is dropped: its tasks end at their next `await`.
    pub(crate) fn verif_shutdown(pool: ::rt::Pool) {
        if !::rt::active() {
            return;
        }
        let all: Vec<_> = TASKS.with(|t| {
            let mut t = t.borrow_mut();
            let mine = t.iter().filter(|x| x.0 == pool).map(|x| x.1.clone()).collect();
            t.retain(|x| x.0 != pool);
            mine
        });
        for t in all {
            if let Some(t) = t.upgrade() {
                t.stop();
            }
        }
    }

    pub(crate) fn verif_spawn<F>(pool: ::rt::Pool, worker: bool, f: F) -> JoinHandle<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        let shared = Arc::new(Mutex::new(Shared { result: None, done: false, aborted: false, waker: None, inner: None }));
        if worker {
            let w: std::sync::Weak<Mutex<Shared<F::Output>>> = Arc::downgrade(&shared);
            TASKS.with(|t| t.borrow_mut().push((pool, w)));
        }
        let s = shared.clone();
        ::rt::spawn(format!("task{}", ::rt::task_count()), move || {
            let a = Abortable(Box::pin(f), s.clone());
            let body = move || {
                if worker {
                    ::rt::block_on(::rt::OnWorker(pool, Box::pin(a)))
                } else {
                    let _g = ::rt::beside_workers(pool);
                    ::rt::block_on(a)
                }
            };
            match vstd::thread::verif_body(body) {
                Ok(Some(v)) => finish(&s, Ok(v)),
                Ok(None) => finish(&s, Err(JoinError(None))),
                Err(p) => finish(&s, Err(JoinError(Some(p)))),
            }
        });
        ::rt::point("spawn");
        JoinHandle(shared)
    }

    pub fn spawn<F>(f: F) -> JoinHandle<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        verif_spawn(crate::runtime::Handle::current().verif_pool(), true, f)
    }

    pub fn spawn_blocking<F, R>(f: F) -> JoinHandle<R>
    where
        F: FnOnce() -> R + Send + 'static,
        R: Send + 'static,
    {
        crate::runtime::Handle::current().spawn_blocking(f)
    }

    pub fn block_in_place<F: FnOnce() -> R, R>(f: F) -> R {
        ::rt::off_worker(f)
    }

    /// The tasks of a set, in the order they finish.
    pub struct JoinSet<T>(Vec<JoinHandle<T>>);
    impl<T: 'static> JoinSet<T> {
        pub fn new() -> Self {
            JoinSet(Vec::new())
        }
        pub fn len(&self) -> usize {
            self.0.len()
        }
        pub fn is_empty(&self) -> bool {
            self.0.is_empty()
        }
        pub fn spawn<F>(&mut self, f: F)
        where
            F: Future<Output = T> + Send + 'static,
            T: Send,
        {
            self.0.push(spawn(f));
        }
        pub async fn join_next(&mut self) -> Option<Result<T, JoinError>> {
            if self.0.is_empty() {
                return None;
            }
            let (i, r) = std::future::poll_fn(|cx| {
                for (i, h) in self.0.iter_mut().enumerate() {
                    if let Poll::Ready(r) = Pin::new(h).poll(cx) {
                        return Poll::Ready((i, r));
                    }
                }
                Poll::Pending
            })
            .await;
            self.0.remove(i);
            Some(r)
        }
        pub fn abort_all(&mut self) {
            for h in &self.0 {
                h.abort();
            }
        }
    }
    impl<T> Default for JoinSet<T> {
        fn default() -> Self {
            JoinSet(Vec::new())
        }
    }
    impl<T> Drop for JoinSet<T> {
        fn drop(&mut self) {
            for h in &self.0 {
                h.abort();
            }
        }
    }

    pub async fn yield_now() {
        ::rt::off_worker(|| ::rt::yield_now());
    }
}

pub mod time {
    pub use std::time::Duration;
    use std::fmt;
    use std::future::Future;
    use std::pin::Pin;
    use std::task::{Context, Poll, Waker};
    pub use vstd::time::Instant;

    pub mod error {
        #[derive(Debug, PartialEq, Eq)]
        pub struct Elapsed(pub(crate) ());
        impl std::fmt::Display for Elapsed {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str("deadline has elapsed")
            }
        }
        impl std::error::Error for Elapsed {}
    }

    /// A timer: a small task that sleeps and then wakes the future.
    pub struct Sleep {
        deadline: u128,
        armed: Option<std::sync::Arc<std::sync::Mutex<Option<Waker>>>>,
    }
    impl Sleep {
        fn until(deadline: u128) -> Sleep {
            Sleep { deadline, armed: None }
        }
        pub fn is_elapsed(&self) -> bool {
            ::rt::now() >= self.deadline
        }
        pub fn deadline(&self) -> Instant {
            let now = Instant::now();
            now + Duration::from_nanos((self.deadline - ::rt::now()) as u64)
        }
    }
    impl Future for Sleep {
        type Output = ();
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
            if ::rt::now() >= self.deadline {
                return Poll::Ready(());
            }
            match &self.armed {
                Some(w) => *w.lock().unwrap() = Some(cx.waker().clone()),
                None => {
                    let w = std::sync::Arc::new(std::sync::Mutex::new(Some(cx.waker().clone())));
                    self.armed = Some(w.clone());
                    let d = self.deadline;
                    ::rt::spawn("timer", move || {
                        while ::rt::now() < d {
                            ::rt::block_until(d);
                        }
                        if let Some(w) = w.lock().unwrap().take() {
                            w.wake();
                        }
                    });
                }
            }
            Poll::Pending
        }
    }
    impl Drop for Sleep {
        fn drop(&mut self) {
            if let Some(w) = &self.armed {
                *w.lock().unwrap() = None;
            }
        }
    }

    pub fn sleep(d: Duration) -> Sleep {
        // tokio rounds to whole milliseconds and always yields at least once
        Sleep::until(::rt::now() + d.as_nanos().max(1))
    }
    pub fn sleep_until(t: Instant) -> Sleep {
        Sleep::until(t.verif_ns())
    }

    pub async fn timeout<F: Future>(d: Duration, f: F) -> Result<F::Output, error::Elapsed> {
        timeout_ns(::rt::now() + d.as_nanos(), f).await
    }
    pub async fn timeout_at<F: Future>(t: Instant, f: F) -> Result<F::Output, error::Elapsed> {
        timeout_ns(t.verif_ns(), f).await
    }
    async fn timeout_ns<F: Future>(deadline: u128, f: F) -> Result<F::Output, error::Elapsed> {
        let mut f = Box::pin(f);
        let mut s = Box::pin(Sleep::until(deadline));
        std::future::poll_fn(move |cx| {
            if let Poll::Ready(v) = f.as_mut().poll(cx) {
                return Poll::Ready(Ok(v));
            }
            match s.as_mut().poll(cx) {
                Poll::Ready(()) => Poll::Ready(Err(error::Elapsed(()))),
                Poll::Pending => Poll::Pending,
            }
        })
        .await
    }

    #[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
    pub enum MissedTickBehavior {
        #[default]
        Burst,
        Delay,
        Skip,
    }
    pub struct Interval {
        next: u128,
        period: u128,
        missed: MissedTickBehavior,
    }
    impl Interval {
        pub async fn tick(&mut self) -> Instant {
            let d = self.next;
            if ::rt::now() < d {
                Sleep::until(d).await;
            } else {
                ::rt::point("interval");
            }
            let now = ::rt::now();
            self.next = match self.missed {
                MissedTickBehavior::Burst => d + self.period,
                MissedTickBehavior::Delay => now + self.period,
                MissedTickBehavior::Skip => d + self.period * ((now - d) / self.period + 1),
            };
            Instant::now()
        }
        pub fn set_missed_tick_behavior(&mut self, m: MissedTickBehavior) {
            self.missed = m;
        }
        pub fn reset(&mut self) {
            self.next = ::rt::now() + self.period;
        }
        pub fn period(&self) -> Duration {
            Duration::from_nanos(self.period as u64)
        }
    }
    pub fn interval(d: Duration) -> Interval {
        assert!(!d.is_zero(), "`period` must be non-zero.");
        Interval { next: ::rt::now(), period: d.as_nanos(), missed: MissedTickBehavior::Burst }
    }
    pub fn interval_at(t: Instant, d: Duration) -> Interval {
        assert!(!d.is_zero(), "`period` must be non-zero.");
        Interval { next: t.verif_ns(), period: d.as_nanos(), missed: MissedTickBehavior::Burst }
    }
}

pub mod sync {
    pub use ::tokio::sync::*;
    use std::fmt;
    use std::sync::Arc;

    /// The real lock, with a scheduling point before every acquisition.
    #[derive(Debug, Default)]
    #[repr(transparent)]
    pub struct Mutex<T: ?Sized>(::tokio::sync::Mutex<T>);
    impl<T> Mutex<T> {
        pub fn new(t: T) -> Self {
            Mutex(::tokio::sync::Mutex::new(t))
        }
        pub fn into_inner(self) -> T {
            self.0.into_inner()
        }
        fn real(self: Arc<Self>) -> Arc<::tokio::sync::Mutex<T>> {
            // the wrapper is transparent
            unsafe { Arc::from_raw(Arc::into_raw(self) as *const ::tokio::sync::Mutex<T>) }
        }
        pub async fn lock_owned(self: Arc<Self>) -> OwnedMutexGuard<T> {
            ::rt::point("lock");
            self.real().lock_owned().await
        }
        pub fn blocking_lock_owned(self: Arc<Self>) -> OwnedMutexGuard<T> {
            ::rt::point("lock");
            ::rt::block_on(self.real().lock_owned())
        }
        pub fn try_lock_owned(self: Arc<Self>) -> Result<OwnedMutexGuard<T>, TryLockError> {
            ::rt::point("try_lock");
            self.real().try_lock_owned()
        }
    }
    impl<T: ?Sized> Mutex<T> {
        pub async fn lock(&self) -> MutexGuard<'_, T> {
            ::rt::point("lock");
            self.0.lock().await
        }
        pub fn blocking_lock(&self) -> MutexGuard<'_, T> {
            ::rt::point("lock");
            ::rt::block_on(self.0.lock())
        }
        pub fn try_lock(&self) -> Result<MutexGuard<'_, T>, TryLockError> {
            ::rt::point("try_lock");
            self.0.try_lock()
        }
        pub fn get_mut(&mut self) -> &mut T {
            self.0.get_mut()
        }
    }
    impl<T> From<T> for Mutex<T> {
        fn from(t: T) -> Self {
            Mutex::new(t)
        }
    }

    #[derive(Debug, Default)]
    #[repr(transparent)]
    pub struct RwLock<T: ?Sized>(::tokio::sync::RwLock<T>);
    impl<T> RwLock<T> {
        pub fn new(t: T) -> Self {
            RwLock(::tokio::sync::RwLock::new(t))
        }
        pub fn into_inner(self) -> T {
            self.0.into_inner()
        }
        fn real(self: Arc<Self>) -> Arc<::tokio::sync::RwLock<T>> {
            unsafe { Arc::from_raw(Arc::into_raw(self) as *const ::tokio::sync::RwLock<T>) }
        }
        pub async fn read_owned(self: Arc<Self>) -> OwnedRwLockReadGuard<T> {
            ::rt::point("read");
            self.real().read_owned().await
        }
        pub async fn write_owned(self: Arc<Self>) -> OwnedRwLockWriteGuard<T> {
            ::rt::point("write");
            self.real().write_owned().await
        }
        pub fn try_read_owned(self: Arc<Self>) -> Result<OwnedRwLockReadGuard<T>, TryLockError> {
            ::rt::point("try_read");
            self.real().try_read_owned()
        }
        pub fn try_write_owned(self: Arc<Self>) -> Result<OwnedRwLockWriteGuard<T>, TryLockError> {
            ::rt::point("try_write");
            self.real().try_write_owned()
        }
    }
    impl<T: ?Sized> RwLock<T> {
        pub async fn read(&self) -> RwLockReadGuard<'_, T> {
            ::rt::point("read");
            self.0.read().await
        }
        pub async fn write(&self) -> RwLockWriteGuard<'_, T> {
            ::rt::point("write");
            self.0.write().await
        }
        pub fn blocking_read(&self) -> RwLockReadGuard<'_, T> {
            ::rt::point("read");
            ::rt::block_on(self.0.read())
        }
        pub fn blocking_write(&self) -> RwLockWriteGuard<'_, T> {
            ::rt::point("write");
            ::rt::block_on(self.0.write())
        }
        pub fn try_read(&self) -> Result<RwLockReadGuard<'_, T>, TryLockError> {
            ::rt::point("try_read");
            self.0.try_read()
        }
        pub fn try_write(&self) -> Result<RwLockWriteGuard<'_, T>, TryLockError> {
            ::rt::point("try_write");
            self.0.try_write()
        }
        pub fn get_mut(&mut self) -> &mut T {
            self.0.get_mut()
        }
    }
    impl<T> From<T> for RwLock<T> {
        fn from(t: T) -> Self {
            RwLock::new(t)
        }
    }

    #[derive(Debug, Default)]
    pub struct Notify(::tokio::sync::Notify);
    impl Notify {
        pub fn new() -> Self {
            Self::default()
        }
        pub fn notify_one(&self) {
            ::rt::point("notify");
            self.0.notify_one()
        }
        pub fn notify_waiters(&self) {
            ::rt::point("notify");
            self.0.notify_waiters()
        }
        pub fn notified(&self) -> futures::Notified<'_> {
            ::rt::point("notified");
            self.0.notified()
        }
    }

    #[derive(Debug)]
    #[repr(transparent)]
    pub struct Semaphore(::tokio::sync::Semaphore);
    impl Semaphore {
        pub fn new(n: usize) -> Self {
            Semaphore(::tokio::sync::Semaphore::new(n))
        }
        pub fn available_permits(&self) -> usize {
            self.0.available_permits()
        }
        pub fn add_permits(&self, n: usize) {
            ::rt::point("release");
            self.0.add_permits(n)
        }
        pub fn close(&self) {
            ::rt::point("release");
            self.0.close()
        }
        pub fn is_closed(&self) -> bool {
            self.0.is_closed()
        }
        pub async fn acquire(&self) -> Result<SemaphorePermit<'_>, AcquireError> {
            ::rt::point("acquire");
            self.0.acquire().await
        }
        pub async fn acquire_many(&self, n: u32) -> Result<SemaphorePermit<'_>, AcquireError> {
            ::rt::point("acquire");
            self.0.acquire_many(n).await
        }
        pub fn try_acquire(&self) -> Result<SemaphorePermit<'_>, TryAcquireError> {
            ::rt::point("try_acquire");
            self.0.try_acquire()
        }
        fn real(self: Arc<Self>) -> Arc<::tokio::sync::Semaphore> {
            unsafe { Arc::from_raw(Arc::into_raw(self) as *const ::tokio::sync::Semaphore) }
        }
        pub async fn acquire_owned(self: Arc<Self>) -> Result<OwnedSemaphorePermit, AcquireError> {
            ::rt::point("acquire");
            self.real().acquire_owned().await
        }
        pub fn try_acquire_owned(self: Arc<Self>) -> Result<OwnedSemaphorePermit, TryAcquireError> {
            ::rt::point("try_acquire");
            self.real().try_acquire_owned()
        }
    }

    pub mod mpsc {
        pub use ::tokio::sync::mpsc::{error, OwnedPermit, Permit};
        use ::tokio::sync::mpsc as real;
        use error::{SendError, TryRecvError, TrySendError};
        use std::task::{Context, Poll};

        #[derive(Debug)]
        pub struct Sender<T>(real::Sender<T>);
        #[derive(Debug)]
        pub struct Receiver<T>(real::Receiver<T>, u32);
        #[derive(Debug)]
        pub struct UnboundedSender<T>(real::UnboundedSender<T>);
        #[derive(Debug)]
        pub struct UnboundedReceiver<T>(real::UnboundedReceiver<T>, u32);

        impl<T> Clone for Sender<T> {
            fn clone(&self) -> Self {
                Sender(self.0.clone())
            }
        }
        impl<T> Clone for UnboundedSender<T> {
            fn clone(&self) -> Self {
                UnboundedSender(self.0.clone())
            }
        }
        pub fn channel<T>(n: usize) -> (Sender<T>, Receiver<T>) {
            let (a, b) = real::channel(n);
            (Sender(a), Receiver(b, 0))
        }
        pub fn unbounded_channel<T>() -> (UnboundedSender<T>, UnboundedReceiver<T>) {
            let (a, b) = real::unbounded_channel();
            (UnboundedSender(a), UnboundedReceiver(b, 0))
        }
        impl<T> Sender<T> {
            pub async fn send(&self, t: T) -> Result<(), SendError<T>> {
                ::rt::point("send");
                self.0.send(t).await
            }
            pub fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
                ::rt::point("try_send");
                self.0.try_send(t)
            }
            pub fn blocking_send(&self, t: T) -> Result<(), SendError<T>> {
                ::rt::point("send");
                ::rt::block_on(self.0.send(t))
            }
            pub async fn reserve(&self) -> Result<Permit<'_, T>, SendError<()>> {
                self.0.reserve().await
            }
            pub async fn closed(&self) {
                self.0.closed().await
            }
            pub fn is_closed(&self) -> bool {
                self.0.is_closed()
            }
            pub fn capacity(&self) -> usize {
                self.0.capacity()
            }
        }
        impl<T> UnboundedSender<T> {
            pub fn send(&self, t: T) -> Result<(), SendError<T>> {
                ::rt::point("send");
                self.0.send(t)
            }
            pub fn is_closed(&self) -> bool {
                self.0.is_closed()
            }
        }
        macro_rules! receiver {
            ($r:ident) => {
                impl<T> $r<T> {
                    pub async fn recv(&mut self) -> Option<T> {
                        ::rt::point("recv");
                        let r = self.0.recv().await;
                        if r.is_none() {
                            // a receiver that goes on asking a closed channel spins: the others get their turn
                            self.1 += 1;
                            if self.1 > 1 {
                                ::rt::yield_now();
                            }
                        }
                        r
                    }
                    pub fn blocking_recv(&mut self) -> Option<T> {
                        ::rt::point("recv");
                        ::rt::block_on(self.0.recv())
                    }
                    pub fn try_recv(&mut self) -> Result<T, TryRecvError> {
                        ::rt::point("try_recv");
                        self.0.try_recv()
                    }
                    pub fn poll_recv(&mut self, cx: &mut Context<'_>) -> Poll<Option<T>> {
                        self.0.poll_recv(cx)
                    }
                    pub fn close(&mut self) {
                        self.0.close()
                    }
                }
            };
        }
        receiver!(Receiver);
        receiver!(UnboundedReceiver);
    }
}
