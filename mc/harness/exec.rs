//! A manual executor: polls one future, knows when it was woken, detects stalls.
use std::future::Future;
use std::pin::pin;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

pub struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, SeqCst)
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.0.store(true, SeqCst)
    }
}
// Two tasks take turns, as if the future moved between them: only the waker of the latest poll counts.
thread_local! {
    static FLAGS: [(Arc<Flag>, Waker); 2] = [(); 2].map(|_| { let f = Arc::new(Flag(AtomicBool::new(false))); (f.clone(), f.into()) });
}
/// The future returned Pending and nobody will ever wake it.
#[derive(Debug)]
pub struct Stalled;

const POLL_CAP: u64 = 5_000_000;

pub fn run<F: Future>(f: F) -> Result<F::Output, Stalled> {
    let flags = FLAGS.with(|f| f.clone());
    let mut f = pin!(f);
    for turn in 0..POLL_CAP {
        let (flag, waker) = &flags[turn as usize % 2];
        let mut cx = Context::from_waker(waker);
        flag.0.store(false, SeqCst);
        match f.as_mut().poll(&mut cx) {
            Poll::Ready(v) => return Ok(v),
            Poll::Pending => {
                if !flag.0.load(SeqCst) {
                    return Err(Stalled);
                }
            }
        }
    }
    std::panic::panic_any(crate::engine::Livelock(format!("future polled {POLL_CAP} times without completing")))
}

/// Runs a future over always-ready devices.
pub fn now<F: Future>(f: F) -> F::Output {
    match run(f) {
        Ok(v) => v,
        Err(_) => std::panic::panic_any(crate::engine::Livelock("future stalled although its device was ready".into())),
    }
}
