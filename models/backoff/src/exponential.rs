use crate::backoff::Backoff;
use crate::default;
use std::time::Duration;

#[derive(Debug, Clone)]
pub struct ExponentialBackoff {
    pub current_interval: Duration,
    pub initial_interval: Duration,
    pub randomization_factor: f64,
    pub multiplier: f64,
    pub max_interval: Duration,
    pub max_elapsed_time: Option<Duration>,
}
impl Default for ExponentialBackoff {
    fn default() -> Self {
        ExponentialBackoffBuilder::default().build()
    }
}
/// Whether the elapsed-time budget is used up at this point (arbitrary).
#[inline(never)]
pub fn budget_exhausted() -> bool {
    kenv::any_bool()
}
/// Ghost: the configuration the last retry loop ran with.
pub static mut LAST: Option<(Duration, Option<Duration>)> = None;
impl Backoff for ExponentialBackoff {
    fn reset(&mut self) {
        self.current_interval = self.initial_interval;
        unsafe { LAST = Some((self.initial_interval, self.max_elapsed_time)) }
    }
    fn next_backoff(&mut self) -> Option<Duration> {
        if self.max_elapsed_time.is_some() && budget_exhausted() {
            None
        } else {
            Some(self.current_interval)
        }
    }
}
#[derive(Debug, Clone)]
pub struct ExponentialBackoffBuilder {
    initial_interval: Duration,
    randomization_factor: f64,
    multiplier: f64,
    max_interval: Duration,
    max_elapsed_time: Option<Duration>,
}
impl Default for ExponentialBackoffBuilder {
    fn default() -> Self {
        Self {
            initial_interval: Duration::from_millis(default::INITIAL_INTERVAL_MILLIS),
            randomization_factor: default::RANDOMIZATION_FACTOR,
            multiplier: default::MULTIPLIER,
            max_interval: Duration::from_millis(default::MAX_INTERVAL_MILLIS),
            max_elapsed_time: Some(Duration::from_millis(default::MAX_ELAPSED_TIME_MILLIS)),
        }
    }
}
impl ExponentialBackoffBuilder {
    pub fn new() -> Self {
        Default::default()
    }
    pub fn with_initial_interval(&mut self, d: Duration) -> &mut Self {
        self.initial_interval = d;
        self
    }
    pub fn with_randomization_factor(&mut self, f: f64) -> &mut Self {
        self.randomization_factor = f;
        self
    }
    pub fn with_multiplier(&mut self, f: f64) -> &mut Self {
        self.multiplier = f;
        self
    }
    pub fn with_max_interval(&mut self, d: Duration) -> &mut Self {
        self.max_interval = d;
        self
    }
    pub fn with_max_elapsed_time(&mut self, d: Option<Duration>) -> &mut Self {
        self.max_elapsed_time = d;
        self
    }
    pub fn build(&self) -> ExponentialBackoff {
        ExponentialBackoff {
            current_interval: self.initial_interval,
            initial_interval: self.initial_interval,
            randomization_factor: self.randomization_factor,
            multiplier: self.multiplier,
            max_interval: self.max_interval,
            max_elapsed_time: self.max_elapsed_time,
        }
    }
}
