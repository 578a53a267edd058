//! `web_time` with a symbolic clock: every reading is an arbitrary instant that is not before
//! the previous one.
pub use std::time::{Duration, SystemTime, SystemTimeError, TryFromFloatSecsError, UNIX_EPOCH};
use std::ops::{Add, AddAssign, Sub, SubAssign};

#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Instant(Duration);

/// The last reading; `None` before the first.
static mut LAST: Duration = Duration::ZERO;
/// When set, readings do not move (used by harnesses whose property does not involve time).
static mut FROZEN: bool = true;

pub mod model {
    use super::*;
    pub fn freeze(b: bool) {
        unsafe { FROZEN = b }
    }
    pub fn set(d: Duration) {
        unsafe { LAST = d }
    }
    pub fn last() -> Instant {
        unsafe { Instant(LAST) }
    }
    pub fn at(d: Duration) -> Instant {
        Instant(d)
    }
    /// Arbitrary duration below 2^32 seconds.
    pub fn any_duration() -> Duration {
        let s = vsym::u32("clock s");
        let n = vsym::range(0, 999_999_999, "clock ns");
        Duration::new(s as u64, n as u32)
    }
}

impl Instant {
    pub fn now() -> Instant {
        unsafe {
            if !FROZEN {
                let d = model::any_duration();
                vsym::assume(d >= LAST);
                LAST = d;
            }
            Instant(LAST)
        }
    }
    pub fn duration_since(&self, earlier: Instant) -> Duration {
        self.0.saturating_sub(earlier.0)
    }
    pub fn checked_duration_since(&self, earlier: Instant) -> Option<Duration> {
        self.0.checked_sub(earlier.0)
    }
    pub fn saturating_duration_since(&self, earlier: Instant) -> Duration {
        self.0.saturating_sub(earlier.0)
    }
    pub fn elapsed(&self) -> Duration {
        Instant::now().duration_since(*self)
    }
    pub fn checked_add(&self, d: Duration) -> Option<Instant> {
        self.0.checked_add(d).map(Instant)
    }
    pub fn checked_sub(&self, d: Duration) -> Option<Instant> {
        self.0.checked_sub(d).map(Instant)
    }
}
impl Add<Duration> for Instant {
    type Output = Instant;
    fn add(self, d: Duration) -> Instant {
        Instant(self.0 + d)
    }
}
impl AddAssign<Duration> for Instant {
    fn add_assign(&mut self, d: Duration) {
        self.0 += d
    }
}
impl Sub<Duration> for Instant {
    type Output = Instant;
    fn sub(self, d: Duration) -> Instant {
        Instant(self.0 - d)
    }
}
impl SubAssign<Duration> for Instant {
    fn sub_assign(&mut self, d: Duration) {
        self.0 -= d
    }
}
impl Sub<Instant> for Instant {
    type Output = Duration;
    fn sub(self, o: Instant) -> Duration {
        self.duration_since(o)
    }
}
