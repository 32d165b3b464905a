use std::cell::UnsafeCell;
use std::fmt;
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};
use vrt::sched;

struct Out<T>(UnsafeCell<Option<Result<T, JoinError>>>);
unsafe impl<T> Send for Out<T> {}
unsafe impl<T> Sync for Out<T> {}

pub struct JoinError(Option<Box<dyn std::any::Any + Send + 'static>>);
impl JoinError {
    pub fn is_panic(&self) -> bool {
        self.0.is_some()
    }
    pub fn is_cancelled(&self) -> bool {
        self.0.is_none()
    }
    pub fn into_panic(self) -> Box<dyn std::any::Any + Send + 'static> {
        self.0.unwrap()
    }
}
unsafe impl Sync for JoinError {}
impl fmt::Debug for JoinError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("JoinError")
    }
}
impl fmt::Display for JoinError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("task panicked")
    }
}
impl std::error::Error for JoinError {}

pub struct JoinHandle<T> {
    out: Arc<Out<T>>,
    task: usize,
}
impl<T> JoinHandle<T> {
    pub fn is_finished(&self) -> bool {
        sched::is_done(self.task)
    }
    pub fn abort(&self) {}
}
impl<T> Future for JoinHandle<T> {
    type Output = Result<T, JoinError>;
    fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Self::Output> {
        sched::point();
        sched::wait(&|| sched::is_done(self.task));
        Poll::Ready(unsafe { (*self.out.0.get()).take().unwrap() })
    }
}
fn start<T: 'static>(f: impl FnOnce() -> T + 'static) -> JoinHandle<T> {
    let out = Arc::new(Out(UnsafeCell::new(None)));
    let o = out.clone();
    let task = sched::spawn(Box::new(move || {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        unsafe { *o.0.get() = Some(r.map_err(|e| JoinError(Some(e)))) };
    }));
    sched::point();
    JoinHandle { out, task }
}
pub fn spawn<F>(f: F) -> JoinHandle<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    start(move || vrt::block_on(f))
}
pub fn spawn_blocking<F, R>(f: F) -> JoinHandle<R>
where
    F: FnOnce() -> R + Send + 'static,
    R: Send + 'static,
{
    start(f)
}
pub fn block_in_place<F, R>(f: F) -> R
where
    F: FnOnce() -> R,
{
    f()
}
pub async fn yield_now() {
    sched::yield_now()
}

/// Tasks joined in the order in which they end.
pub struct JoinSet<T>(Vec<JoinHandle<T>>);
impl<T: 'static> JoinSet<T> {
    pub fn new() -> Self {
        JoinSet(Vec::new())
    }
    pub fn spawn<F>(&mut self, f: F)
    where
        F: Future<Output = T> + Send + 'static,
        T: Send,
    {
        self.0.push(spawn(f))
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub async fn join_next(&mut self) -> Option<Result<T, JoinError>> {
        sched::point();
        if self.0.is_empty() {
            return None;
        }
        sched::wait(&|| self.0.iter().any(|h| h.is_finished()));
        let k = self.0.iter().position(|h| h.is_finished()).unwrap();
        let h = self.0.remove(k);
        Some(h.await)
    }
}
impl<T: 'static> Default for JoinSet<T> {
    fn default() -> Self {
        Self::new()
    }
}
