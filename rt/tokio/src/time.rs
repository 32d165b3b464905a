pub use std::time::Duration;
use std::fmt;
use std::future::Future;

pub mod error {
    pub use super::Elapsed;
}
#[derive(Debug, PartialEq, Eq)]
pub struct Elapsed(());
impl fmt::Display for Elapsed {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("deadline has elapsed")
    }
}
impl std::error::Error for Elapsed {}

pub async fn sleep(_: Duration) {
    vrt::sched::sleep()
}
pub async fn sleep_until(_: Instant) {
    vrt::sched::sleep()
}
/// The deadline may or may not pass before the future starts; once started it completes.
pub async fn timeout<F: Future>(_: Duration, f: F) -> Result<F::Output, Elapsed> {
    if vrt::choose_bool("timeout") {
        return Err(Elapsed(()));
    }
    Ok(f.await)
}
pub struct Interval(bool);
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum MissedTickBehavior {
    Burst,
    Delay,
    Skip,
}
impl Interval {
    pub async fn tick(&mut self) -> Instant {
        if self.0 {
            vrt::sched::sleep();
        }
        self.0 = true;
        Instant::now()
    }
    pub fn set_missed_tick_behavior(&mut self, _: MissedTickBehavior) {}
}
pub fn interval(_: Duration) -> Interval {
    Interval(false)
}
pub fn interval_at(_: Instant, _: Duration) -> Interval {
    Interval(true)
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Instant(std::time::Instant);
impl Instant {
    pub fn now() -> Self {
        Instant(std::time::Instant::now())
    }
    pub fn elapsed(&self) -> Duration {
        self.0.elapsed()
    }
}
impl std::ops::Add<Duration> for Instant {
    type Output = Instant;
    fn add(self, d: Duration) -> Instant {
        Instant(self.0 + d)
    }
}
impl std::ops::Sub<Instant> for Instant {
    type Output = Duration;
    fn sub(self, o: Instant) -> Duration {
        self.0 - o.0
    }
}
impl Instant {
    pub fn duration_since(&self, o: Instant) -> Duration {
        self.0.duration_since(o.0)
    }
}
