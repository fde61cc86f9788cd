//! stand-in for async_executors: the timer of a local pool
use futures::future::BoxFuture;
use std::time::Duration;
pub trait Timer {
    fn sleep(&self, dur: Duration) -> BoxFuture<'static, ()>;
}
pub trait TimerExt: Timer {}
impl<T: Timer + ?Sized> TimerExt for T {}
impl Timer for futures::executor::LocalSpawner {
    fn sleep(&self, dur: Duration) -> BoxFuture<'static, ()> {
        let at = std::time::Instant::now() + dur;
        let mut started = false;
        Box::pin(futures::poll_fn(move |cx| {
            let now = std::time::Instant::now();
            if now >= at {
                return std::task::Poll::Ready(());
            }
            if !started {
                started = true;
                let w = cx.waker().clone();
                std::thread::spawn(move || {
                    std::thread::sleep(at - now);
                    w.wake()
                });
            }
            std::task::Poll::Pending
        }))
    }
}
