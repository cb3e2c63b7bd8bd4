//! Virtual clocks.
pub use ::std::time::{Duration, TryFromFloatSecsError};
use ::std::cell::{Cell, RefCell};
use ::std::fmt;
use ::std::ops::{Add, AddAssign, Sub, SubAssign};
use ::std::rc::Rc;

/// Wall clock at the start of an execution, ns since the epoch.
const START: i128 = 1_700_000_000_000_000_000;

thread_local! {
    static OFFSET: Cell<i128> = const { Cell::new(0) };
    static HOOK: RefCell<Option<Rc<dyn Fn()>>> = const { RefCell::new(None) };
}

/// For the harness: steps the wall clock.
pub fn verif_step_wall(ns: i128) {
    OFFSET.with(|o| o.set(o.get() + ns));
}
pub fn verif_reset() {
    OFFSET.with(|o| o.set(0));
    HOOK.with(|h| *h.borrow_mut() = None);
}
/// For the harness: called before every reading of the wall clock.
pub fn verif_hook(f: Option<Rc<dyn Fn()>>) {
    HOOK.with(|h| *h.borrow_mut() = f);
}

fn wall() -> i128 {
    if ::rt::active() {
        let h = HOOK.with(|h| h.borrow().clone());
        if let Some(h) = h {
            h();
        }
    }
    START + ::rt::now() as i128 + OFFSET.with(|o| o.get())
}

#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct SystemTime(i128);

pub const UNIX_EPOCH: SystemTime = SystemTime(0);

#[derive(Clone, Debug)]
pub struct SystemTimeError(Duration);
impl SystemTimeError {
    pub fn duration(&self) -> Duration {
        self.0
    }
}
impl fmt::Display for SystemTimeError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "second time provided was later than self")
    }
}
impl ::std::error::Error for SystemTimeError {}

fn dur(ns: i128) -> Duration {
    Duration::new((ns / 1_000_000_000) as u64, (ns % 1_000_000_000) as u32)
}

impl SystemTime {
    pub const UNIX_EPOCH: SystemTime = SystemTime(0);
    pub fn now() -> Self {
        SystemTime(wall())
    }
    pub fn duration_since(&self, earlier: SystemTime) -> Result<Duration, SystemTimeError> {
        let d = self.0 - earlier.0;
        if d >= 0 {
            Ok(dur(d))
        } else {
            Err(SystemTimeError(dur(-d)))
        }
    }
    pub fn elapsed(&self) -> Result<Duration, SystemTimeError> {
        SystemTime::now().duration_since(*self)
    }
    pub fn checked_add(&self, d: Duration) -> Option<SystemTime> {
        Some(SystemTime(self.0 + d.as_nanos() as i128))
    }
    pub fn checked_sub(&self, d: Duration) -> Option<SystemTime> {
        Some(SystemTime(self.0 - d.as_nanos() as i128))
    }
}

#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Instant(i128);

impl Instant {
    pub fn now() -> Self {
        Instant(::rt::now() as i128)
    }
    pub fn duration_since(&self, earlier: Instant) -> Duration {
        dur((self.0 - earlier.0).max(0))
    }
    pub fn saturating_duration_since(&self, earlier: Instant) -> Duration {
        self.duration_since(earlier)
    }
    pub fn checked_duration_since(&self, earlier: Instant) -> Option<Duration> {
        if self.0 >= earlier.0 {
            Some(dur(self.0 - earlier.0))
        } else {
            None
        }
    }
    pub fn elapsed(&self) -> Duration {
        Instant::now().duration_since(*self)
    }
    pub fn checked_add(&self, d: Duration) -> Option<Instant> {
        Some(Instant(self.0 + d.as_nanos() as i128))
    }
    pub fn checked_sub(&self, d: Duration) -> Option<Instant> {
        Some(Instant(self.0 - d.as_nanos() as i128))
    }
    pub fn verif_ns(&self) -> u128 {
        self.0.max(0) as u128
    }
}

macro_rules! arith {
    ($t:ident) => {
        impl Add<Duration> for $t {
            type Output = $t;
            fn add(self, d: Duration) -> $t {
                $t(self.0 + d.as_nanos() as i128)
            }
        }
        impl Sub<Duration> for $t {
            type Output = $t;
            fn sub(self, d: Duration) -> $t {
                $t(self.0 - d.as_nanos() as i128)
            }
        }
        impl AddAssign<Duration> for $t {
            fn add_assign(&mut self, d: Duration) {
                self.0 += d.as_nanos() as i128
            }
        }
        impl SubAssign<Duration> for $t {
            fn sub_assign(&mut self, d: Duration) {
                self.0 -= d.as_nanos() as i128
            }
        }
    };
}
arith!(SystemTime);
arith!(Instant);
impl Sub<Instant> for Instant {
    type Output = Duration;
    fn sub(self, o: Instant) -> Duration {
        self.duration_since(o)
    }
}
