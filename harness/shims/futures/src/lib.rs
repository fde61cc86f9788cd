//! stand-in for the part of futures in use: a local pool, local spawning and an unbounded channel
pub use std::future::{poll_fn, Future};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::{Arc, Condvar, Mutex};
use std::task::{Context, Poll, Wake, Waker};
pub mod future {
    use super::*;
    pub type BoxFuture<'a, T> = Pin<Box<dyn Future<Output = T> + Send + 'a>>;
    pub struct LocalFutureObj<'a, T>(pub(crate) Pin<Box<dyn Future<Output = T> + 'a>>);
    impl<'a, T> LocalFutureObj<'a, T> {
        pub fn new(f: Pin<Box<dyn Future<Output = T> + 'a>>) -> Self {
            LocalFutureObj(f)
        }
    }
    impl<T> Future for LocalFutureObj<'_, T> {
        type Output = T;
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<T> {
            self.0.as_mut().poll(cx)
        }
    }
}
pub mod task {
    use super::future::LocalFutureObj;
    use super::*;
    #[derive(Debug)]
    pub struct SpawnError(pub(crate) ());
    impl std::fmt::Display for SpawnError {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            f.write_str("spawn error")
        }
    }
    impl std::error::Error for SpawnError {}
    pub trait LocalSpawn {
        fn spawn_local_obj(&self, future: LocalFutureObj<'static, ()>) -> Result<(), SpawnError>;
        fn status_local(&self) -> Result<(), SpawnError> {
            Ok(())
        }
    }
    impl<T: LocalSpawn + ?Sized> LocalSpawn for Rc<T> {
        fn spawn_local_obj(&self, f: LocalFutureObj<'static, ()>) -> Result<(), SpawnError> {
            (**self).spawn_local_obj(f)
        }
    }
    pub trait LocalSpawnExt: LocalSpawn {
        fn spawn_local<F: Future<Output = ()> + 'static>(&self, f: F) -> Result<(), SpawnError> {
            self.spawn_local_obj(LocalFutureObj::new(Box::pin(f)))
        }
    }
    impl<T: LocalSpawn + ?Sized> LocalSpawnExt for T {}
}
pub mod executor {
    use super::*;
    #[derive(Default)]
    struct Flag(Mutex<bool>, Condvar);
    impl Wake for Flag {
        fn wake(self: Arc<Self>) {
            *self.0.lock().unwrap() = true;
            self.1.notify_all();
        }
    }
    type Task = future::LocalFutureObj<'static, ()>;
    #[derive(Default)]
    pub struct LocalPool {
        tasks: Vec<Task>,
        incoming: Rc<RefCell<Vec<Task>>>,
    }
    #[derive(Clone)]
    pub struct LocalSpawner(std::rc::Weak<RefCell<Vec<Task>>>);
    impl task::LocalSpawn for LocalSpawner {
        fn spawn_local_obj(&self, f: Task) -> Result<(), task::SpawnError> {
            self.0.upgrade().ok_or(task::SpawnError(()))?.borrow_mut().push(f);
            Ok(())
        }
        fn status_local(&self) -> Result<(), task::SpawnError> {
            self.0.upgrade().map(|_| ()).ok_or(task::SpawnError(()))
        }
    }
    impl LocalPool {
        pub fn new() -> LocalPool {
            Default::default()
        }
        pub fn spawner(&self) -> LocalSpawner {
            LocalSpawner(Rc::downgrade(&self.incoming))
        }
        pub fn run_until<F: Future>(&mut self, f: F) -> F::Output {
            let flag = Arc::new(Flag::default());
            let w: Waker = flag.clone().into();
            let mut cx = Context::from_waker(&w);
            let mut f = Box::pin(f);
            loop {
                *flag.0.lock().unwrap() = false;
                if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
                    return v;
                }
                loop {
                    self.tasks.append(&mut self.incoming.borrow_mut());
                    self.tasks.retain_mut(|t| Pin::new(t).poll(&mut cx).is_pending());
                    if self.incoming.borrow().is_empty() {
                        break;
                    }
                }
                let mut l = flag.0.lock().unwrap();
                while !*l {
                    l = flag.1.wait(l).unwrap();
                }
            }
        }
    }
}
pub mod channel {
    pub mod mpsc {
        use super::super::*;
        struct Q<T> {
            q: VecDeque<T>,
            senders: usize,
            open: bool,
            waker: Option<Waker>,
        }
        pub struct UnboundedSender<T>(Arc<Mutex<Q<T>>>);
        pub struct UnboundedReceiver<T>(Arc<Mutex<Q<T>>>);
        pub struct TrySendError<T>(T);
        impl<T> TrySendError<T> {
            pub fn into_inner(self) -> T {
                self.0
            }
        }
        impl<T> std::fmt::Debug for TrySendError<T> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str("TrySendError")
            }
        }
        impl<T> std::fmt::Display for TrySendError<T> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str("send failed because receiver is gone")
            }
        }
        impl<T> std::error::Error for TrySendError<T> {}
        pub fn unbounded<T>() -> (UnboundedSender<T>, UnboundedReceiver<T>) {
            let q = Arc::new(Mutex::new(Q { q: VecDeque::new(), senders: 1, open: true, waker: None }));
            (UnboundedSender(q.clone()), UnboundedReceiver(q))
        }
        impl<T> UnboundedSender<T> {
            pub fn unbounded_send(&self, v: T) -> Result<(), TrySendError<T>> {
                let mut q = self.0.lock().unwrap();
                if !q.open {
                    return Err(TrySendError(v));
                }
                q.q.push_back(v);
                if let Some(w) = q.waker.take() {
                    w.wake()
                }
                Ok(())
            }
        }
        impl<T> Clone for UnboundedSender<T> {
            fn clone(&self) -> Self {
                self.0.lock().unwrap().senders += 1;
                UnboundedSender(self.0.clone())
            }
        }
        impl<T> Drop for UnboundedSender<T> {
            fn drop(&mut self) {
                let mut q = self.0.lock().unwrap();
                q.senders -= 1;
                if let Some(w) = q.waker.take() {
                    w.wake()
                }
            }
        }
        impl<T> Drop for UnboundedReceiver<T> {
            fn drop(&mut self) {
                self.0.lock().unwrap().open = false
            }
        }
        impl<T> Stream for UnboundedReceiver<T> {
            type Item = T;
            fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<T>> {
                let mut q = self.0.lock().unwrap();
                match q.q.pop_front() {
                    Some(v) => Poll::Ready(Some(v)),
                    None if q.senders == 0 => Poll::Ready(None),
                    None => {
                        q.waker = Some(cx.waker().clone());
                        Poll::Pending
                    }
                }
            }
        }
    }
}
pub trait Stream {
    type Item;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>>;
}
pub struct Next<'a, S: ?Sized>(&'a mut S);
impl<S: Stream + Unpin + ?Sized> Future for Next<'_, S> {
    type Output = Option<S::Item>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        Pin::new(&mut *self.0).poll_next(cx)
    }
}
pub trait StreamExt: Stream {
    fn next(&mut self) -> Next<'_, Self>
    where
        Self: Unpin,
    {
        Next(self)
    }
}
impl<S: Stream + ?Sized> StreamExt for S {}
