pub use std::thread::{panicking, AccessError, LocalKey, Result};
use std::cell::UnsafeCell;
use std::sync::Arc;
use std::time::Duration;
use vrt::sched;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct ThreadId(u64);
struct Known {
    task: usize,
    name: Option<String>,
    token: UnsafeCell<bool>,
}
#[derive(Clone)]
pub struct Thread(Arc<Known>);
unsafe impl Send for Thread {}
unsafe impl Sync for Thread {}
impl std::fmt::Debug for Thread {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.debug_struct("Thread").field("id", &self.id()).field("name", &self.name()).finish_non_exhaustive()
    }
}
static mut KNOWN: Vec<Thread> = Vec::new();
fn known(task: usize, name: Option<String>) -> Thread {
    #[allow(static_mut_refs)]
    let k = unsafe { &mut KNOWN };
    if let Some(t) = k.iter().find(|t| t.0.task == task) {
        return t.clone();
    }
    let t = Thread(Arc::new(Known { task, name, token: UnsafeCell::new(false) }));
    k.push(t.clone());
    t
}
impl Thread {
    pub fn id(&self) -> ThreadId {
        ThreadId(self.0.task as u64 + 1)
    }
    pub fn name(&self) -> Option<&str> {
        if self.0.task == 0 {
            return Some("main");
        }
        self.0.name.as_deref()
    }
    pub fn unpark(&self) {
        sched::point();
        unsafe { *self.0.token.get() = true }
    }
}
pub fn current() -> Thread {
    known(sched::current(), None)
}
pub fn park() {
    let t = current();
    sched::point();
    sched::wait(&|| unsafe { *t.0.token.get() });
    unsafe { *t.0.token.get() = false }
}

pub struct Packet<T> {
    result: UnsafeCell<Option<Result<T>>>,
}
unsafe impl<T> Send for Packet<T> {}
unsafe impl<T> Sync for Packet<T> {}

pub struct JoinHandle<T> {
    packet: Arc<Packet<T>>,
    task: usize,
    thread: Thread,
}
unsafe impl<T> Send for JoinHandle<T> {}
unsafe impl<T> Sync for JoinHandle<T> {}

impl<T> JoinHandle<T> {
    pub fn join(self) -> Result<T> {
        let t = self.task;
        sched::point();
        sched::wait(&|| sched::is_done(t));
        unsafe { (*self.packet.result.get()).take().unwrap() }
    }
    pub fn is_finished(&self) -> bool {
        sched::is_done(self.task)
    }
    pub fn thread(&self) -> &Thread {
        &self.thread
    }
}

fn start<T>(f: impl FnOnce() -> T, name: Option<String>) -> JoinHandle<T> {
    let packet = Arc::new(Packet { result: UnsafeCell::new(None) });
    let p = packet.clone();
    let g: Box<dyn FnOnce()> = Box::new(move || {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        unsafe { *p.result.get() = Some(r) };
        drop(p);
    });
    let g: Box<dyn FnOnce() + 'static> = unsafe { std::mem::transmute(g) };
    let task = sched::spawn(g);
    let thread = known(task, name);
    sched::point();
    JoinHandle { packet, task, thread }
}

pub fn spawn<F, T>(f: F) -> JoinHandle<T>
where
    F: FnOnce() -> T + Send + 'static,
    T: Send + 'static,
{
    if sched::refuse() {
        panic!("failed to spawn thread");
    }
    start(f, None)
}
pub fn sleep(_: Duration) {
    sched::sleep()
}
pub fn park_timeout(_: Duration) {
    sched::sleep()
}
pub fn yield_now() {
    sched::yield_now()
}
pub fn available_parallelism() -> std::io::Result<std::num::NonZeroUsize> {
    Ok(std::num::NonZeroUsize::new(4).unwrap())
}

#[derive(Default)]
pub struct Builder {
    name: Option<String>,
}
impl Builder {
    pub fn new() -> Self {
        Builder::default()
    }
    pub fn name(mut self, name: String) -> Self {
        self.name = Some(name);
        self
    }
    pub fn stack_size(self, _: usize) -> Self {
        self
    }
    pub fn spawn<F, T>(self, f: F) -> std::io::Result<JoinHandle<T>>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        if sched::refuse() {
            return Err(std::io::ErrorKind::WouldBlock.into());
        }
        Ok(start(f, self.name))
    }
}

pub struct Scope<'scope, 'env: 'scope> {
    tasks: UnsafeCell<Vec<usize>>,
    failed: Arc<UnsafeCell<bool>>,
    _s: std::marker::PhantomData<&'scope mut &'scope ()>,
    _e: std::marker::PhantomData<&'env mut &'env ()>,
}
unsafe impl Sync for Scope<'_, '_> {}
pub struct ScopedJoinHandle<'scope, T>(JoinHandle<T>, std::marker::PhantomData<&'scope ()>);
impl<'scope, T> ScopedJoinHandle<'scope, T> {
    pub fn join(self) -> Result<T> {
        self.0.join()
    }
    pub fn is_finished(&self) -> bool {
        self.0.is_finished()
    }
    pub fn thread(&self) -> &Thread {
        self.0.thread()
    }
}
impl<'scope, 'env> Scope<'scope, 'env> {
    pub fn spawn<F, T>(&'scope self, f: F) -> ScopedJoinHandle<'scope, T>
    where
        F: FnOnce() -> T + Send + 'scope,
        T: Send + 'scope,
    {
        let failed = self.failed.clone();
        let h = start(move || match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
            Ok(x) => x,
            Err(e) => {
                unsafe { *failed.get() = true };
                std::panic::resume_unwind(e)
            }
        }, None);
        unsafe { (*self.tasks.get()).push(h.task) };
        ScopedJoinHandle(h, std::marker::PhantomData)
    }
}
pub fn scope<'env, F, T>(f: F) -> T
where
    F: for<'scope> FnOnce(&'scope Scope<'scope, 'env>) -> T,
{
    let s = Scope {
        tasks: UnsafeCell::new(Vec::new()),
        failed: Arc::new(UnsafeCell::new(false)),
        _s: std::marker::PhantomData,
        _e: std::marker::PhantomData,
    };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&s)));
    let n = unsafe { (*s.tasks.get()).clone() };
    sched::wait(&|| n.iter().all(|t| sched::is_done(*t)));
    match r {
        Ok(v) => {
            if unsafe { *s.failed.get() } {
                panic!("a scoped thread panicked")
            }
            v
        }
        Err(e) => std::panic::resume_unwind(e),
    }
}
