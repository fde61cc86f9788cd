//! Stand-in: bounded channels over std's.
pub use std::sync::mpsc::{RecvTimeoutError, SendError};
use std::sync::mpsc;
use std::time::Instant;
#[derive(Clone)]
pub struct Sender<T>(mpsc::SyncSender<T>);
pub struct Receiver<T>(mpsc::Receiver<T>);
pub fn bounded<T>(n: usize) -> (Sender<T>, Receiver<T>) {
    let (a, b) = mpsc::sync_channel(n);
    (Sender(a), Receiver(b))
}
impl<T> Sender<T> {
    pub fn send(&self, t: T) -> Result<(), SendError<T>> {
        self.0.send(t)
    }
}
impl<T> Receiver<T> {
    pub fn recv_deadline(&self, at: Instant) -> Result<T, RecvTimeoutError> {
        self.0.recv_timeout(at.saturating_duration_since(Instant::now()))
    }
}
