//! A single-task executor which notices lost wake-ups, plus panic capture and a per-scenario watchdog.
use std::future::Future;
use std::panic::AssertUnwindSafe;
use std::pin::pin;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
}

#[derive(Debug)]
pub enum Stuck {
    /// Pending was returned although nobody holds the duty to wake us.
    LostWakeup,
    /// Cancelled by request after this many polls.
    Cancelled,
    PollBudget,
}

/// Polls `f` to completion. Returns Err if it is Pending without a wake-up, or after `limit` polls.
pub fn run_limit<F: Future>(f: F, limit: u64, cancel: bool) -> Result<F::Output, Stuck> {
    let flag = Arc::new(Flag(AtomicBool::new(false)));
    let waker: Waker = flag.clone().into();
    let mut cx = Context::from_waker(&waker);
    let mut f = pin!(f);
    let mut k = 0u64;
    loop {
        if k >= limit {
            return Err(if cancel { Stuck::Cancelled } else { Stuck::PollBudget });
        }
        k += 1;
        flag.0.store(false, Ordering::SeqCst);
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return Ok(v);
        }
        if !flag.0.load(Ordering::SeqCst) {
            return Err(Stuck::LostWakeup);
        }
    }
}
pub struct StuckPanic(pub &'static str);
/// Like block_on; a lost wake-up or a runaway poll loop surfaces as a panic payload the scenario runner records.
pub fn run<F: Future>(f: F) -> F::Output {
    match run_limit(f, 50_000_000, false) {
        Ok(v) => v,
        Err(Stuck::LostWakeup) => std::panic::panic_any(StuckPanic("lost wake-up")),
        Err(_) => std::panic::panic_any(StuckPanic("no progress")),
    }
}

pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(AssertUnwindSafe(f)).map_err(|p| {
        if let Some(s) = p.downcast_ref::<StuckPanic>() {
            format!("stuck: {}", s.0)
        } else if let Some(s) = p.downcast_ref::<&str>() {
            format!("panic: {s}")
        } else if let Some(s) = p.downcast_ref::<String>() {
            format!("panic: {s}")
        } else {
            "panic".into()
        }
    })
}

/// Milliseconds since process start at which the running scenario started (0 = none).
pub static STARTED: AtomicU64 = AtomicU64::new(0);
pub fn now_ms() -> u64 {
    static T0: std::sync::OnceLock<std::time::Instant> = std::sync::OnceLock::new();
    T0.get_or_init(std::time::Instant::now).elapsed().as_millis() as u64 + 1
}
