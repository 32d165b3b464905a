pub mod atomic;
pub use std::sync::{Arc, LazyLock, LockResult, Once, OnceLock, OnceState, PoisonError, TryLockError, TryLockResult, Weak};
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(&self) -> bool {
        self.0
    }
}
use std::cell::UnsafeCell;
use std::fmt;
use std::ops::{Deref, DerefMut};
use std::time::Duration;
use vrt::sched;

// ---- Mutex ------------------------------------------------------------------
pub struct Mutex<T: ?Sized> {
    locked: UnsafeCell<bool>,
    poisoned: UnsafeCell<bool>,
    v: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
pub struct MutexGuard<'a, T: ?Sized> {
    m: &'a Mutex<T>,
    panicking: bool,
    _p: std::marker::PhantomData<*const ()>,
}
unsafe impl<T: ?Sized + Sync> Sync for MutexGuard<'_, T> {}
impl<T> Mutex<T> {
    pub const fn new(v: T) -> Self {
        Self { locked: UnsafeCell::new(false), poisoned: UnsafeCell::new(false), v: UnsafeCell::new(v) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        let p = unsafe { *self.poisoned.get() };
        let v = self.v.into_inner();
        if p {
            Err(PoisonError::new(v))
        } else {
            Ok(v)
        }
    }
}
impl<T: ?Sized> Mutex<T> {
    fn take(&self) -> LockResult<MutexGuard<'_, T>> {
        unsafe { *self.locked.get() = true };
        let g = MutexGuard { m: self, panicking: std::thread::panicking(), _p: std::marker::PhantomData };
        if unsafe { *self.poisoned.get() } {
            Err(PoisonError::new(g))
        } else {
            Ok(g)
        }
    }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        sched::point();
        sched::wait(&|| unsafe { !*self.locked.get() });
        self.take()
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        sched::point();
        if unsafe { *self.locked.get() } {
            return Err(TryLockError::WouldBlock);
        }
        self.take().map_err(TryLockError::Poisoned)
    }
    pub fn is_poisoned(&self) -> bool {
        unsafe { *self.poisoned.get() }
    }
    pub fn clear_poison(&self) {
        unsafe { *self.poisoned.get() = false }
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        Ok(self.v.get_mut())
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(v: T) -> Self {
        Mutex::new(v)
    }
}
impl<T: ?Sized> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Mutex")
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.m.v.get() }
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.m.v.get() }
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        unsafe {
            if !self.panicking && std::thread::panicking() {
                *self.m.poisoned.get() = true;
            }
            *self.m.locked.get() = false;
        }
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}

// ---- Condvar ----------------------------------------------------------------
/// tickets: a waiter sleeps until its ticket is released
pub struct Condvar {
    next: UnsafeCell<usize>,
    waiting: UnsafeCell<Vec<usize>>,
}
unsafe impl Send for Condvar {}
unsafe impl Sync for Condvar {}
impl Condvar {
    pub const fn new() -> Self {
        Self { next: UnsafeCell::new(0), waiting: UnsafeCell::new(Vec::new()) }
    }
    pub fn wait<'a, T: ?Sized>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        let m = g.m;
        let t = unsafe {
            let t = *self.next.get();
            *self.next.get() += 1;
            (*self.waiting.get()).push(t);
            t
        };
        drop(g);
        sched::wait(&|| unsafe { !(*self.waiting.get()).contains(&t) });
        sched::wait(&|| unsafe { !*m.locked.get() });
        m.take()
    }
    pub fn wait_while<'a, T: ?Sized, F: FnMut(&mut T) -> bool>(&self, mut g: MutexGuard<'a, T>, mut c: F) -> LockResult<MutexGuard<'a, T>> {
        while c(&mut *g) {
            g = self.wait(g)?;
        }
        Ok(g)
    }
    /// the time may be over at once, or never
    pub fn wait_timeout<'a, T: ?Sized>(&self, g: MutexGuard<'a, T>, _: Duration) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        let m = g.m;
        let t = unsafe {
            let t = *self.next.get();
            *self.next.get() += 1;
            (*self.waiting.get()).push(t);
            t
        };
        drop(g);
        sched::sleep();
        let over = unsafe { (*self.waiting.get()).contains(&t) };
        unsafe { (*self.waiting.get()).retain(|x| *x != t) };
        sched::wait(&|| unsafe { !*m.locked.get() });
        match m.take() {
            Ok(g) => Ok((g, WaitTimeoutResult(over))),
            Err(e) => Err(PoisonError::new((e.into_inner(), WaitTimeoutResult(over)))),
        }
    }
    pub fn notify_one(&self) {
        unsafe {
            if !(*self.waiting.get()).is_empty() {
                (*self.waiting.get()).remove(0);
            }
        }
        sched::point();
    }
    pub fn notify_all(&self) {
        unsafe { (*self.waiting.get()).clear() }
        sched::point();
    }
}
impl Default for Condvar {
    fn default() -> Self {
        Self::new()
    }
}

// ---- RwLock -----------------------------------------------------------------
pub struct RwLock<T: ?Sized> {
    readers: UnsafeCell<usize>,
    writer: UnsafeCell<bool>,
    poisoned: UnsafeCell<bool>,
    v: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
pub struct RwLockReadGuard<'a, T: ?Sized>(&'a RwLock<T>);
pub struct RwLockWriteGuard<'a, T: ?Sized>(&'a RwLock<T>);
impl<T> RwLock<T> {
    pub const fn new(v: T) -> Self {
        Self { readers: UnsafeCell::new(0), writer: UnsafeCell::new(false), poisoned: UnsafeCell::new(false), v: UnsafeCell::new(v) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        Ok(self.v.into_inner())
    }
}
impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        sched::point();
        sched::wait(&|| unsafe { !*self.writer.get() });
        unsafe {
            *self.readers.get() += 1;
            let g = RwLockReadGuard(self);
            if *self.poisoned.get() {
                Err(PoisonError::new(g))
            } else {
                Ok(g)
            }
        }
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        sched::point();
        sched::wait(&|| unsafe { !*self.writer.get() && *self.readers.get() == 0 });
        unsafe {
            *self.writer.get() = true;
            let g = RwLockWriteGuard(self);
            if *self.poisoned.get() {
                Err(PoisonError::new(g))
            } else {
                Ok(g)
            }
        }
    }
}
impl<T: ?Sized> RwLock<T> {
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
        sched::point();
        if unsafe { *self.writer.get() } {
            return Err(TryLockError::WouldBlock);
        }
        self.read().map_err(TryLockError::Poisoned)
    }
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
        sched::point();
        if unsafe { *self.writer.get() || *self.readers.get() > 0 } {
            return Err(TryLockError::WouldBlock);
        }
        self.write().map_err(TryLockError::Poisoned)
    }
    pub fn is_poisoned(&self) -> bool {
        unsafe { *self.poisoned.get() }
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        Ok(self.v.get_mut())
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        RwLock::new(T::default())
    }
}
impl<T: ?Sized> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("RwLock")
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.v.get() }
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.v.get() }
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.0.v.get() }
    }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        unsafe { *self.0.readers.get() -= 1 }
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        unsafe {
            if std::thread::panicking() {
                *self.0.poisoned.get() = true;
            }
            *self.0.writer.get() = false
        }
    }
}

// ---- Barrier ----------------------------------------------------------------
pub struct Barrier {
    n: usize,
    count: UnsafeCell<usize>,
    gen: UnsafeCell<usize>,
}
unsafe impl Send for Barrier {}
unsafe impl Sync for Barrier {}
pub struct BarrierWaitResult(bool);
impl BarrierWaitResult {
    pub fn is_leader(&self) -> bool {
        self.0
    }
}
impl Barrier {
    pub const fn new(n: usize) -> Self {
        Self { n, count: UnsafeCell::new(0), gen: UnsafeCell::new(0) }
    }
    pub fn wait(&self) -> BarrierWaitResult {
        sched::point();
        unsafe {
            let g = *self.gen.get();
            *self.count.get() += 1;
            if *self.count.get() >= self.n {
                *self.count.get() = 0;
                *self.gen.get() += 1;
                return BarrierWaitResult(true);
            }
            sched::wait(&|| *self.gen.get() != g);
            BarrierWaitResult(false)
        }
    }
}

// ---- channels ---------------------------------------------------------------
pub mod mpsc {
    use super::*;
    pub use std::sync::mpsc::{RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError};
    use std::collections::VecDeque;

    struct Chan<T> {
        q: VecDeque<T>,
        senders: usize,
        receiver: bool,
        bound: usize,
        taken: usize,
        sent: usize,
    }
    struct Shared<T>(UnsafeCell<Chan<T>>);
    unsafe impl<T> Send for Shared<T> {}
    unsafe impl<T> Sync for Shared<T> {}
    impl<T> Shared<T> {
        #[allow(clippy::mut_from_ref)]
        fn c(&self) -> &mut Chan<T> {
            unsafe { &mut *self.0.get() }
        }
    }
    pub struct Sender<T>(Arc<Shared<T>>);
    pub struct SyncSender<T>(Arc<Shared<T>>);
    pub struct Receiver<T>(Arc<Shared<T>>, std::marker::PhantomData<*const ()>);
    unsafe impl<T: Send> Send for Sender<T> {}
    unsafe impl<T: Send> Sync for Sender<T> {}
    unsafe impl<T: Send> Send for SyncSender<T> {}
    unsafe impl<T: Send> Sync for SyncSender<T> {}
    unsafe impl<T: Send> Send for Receiver<T> {}

    fn make<T>(bound: usize) -> Arc<Shared<T>> {
        Arc::new(Shared(UnsafeCell::new(Chan { q: VecDeque::new(), senders: 1, receiver: true, bound, taken: 0, sent: 0 })))
    }
    pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
        let c = make(usize::MAX);
        (Sender(c.clone()), Receiver(c, std::marker::PhantomData))
    }
    pub fn sync_channel<T>(n: usize) -> (SyncSender<T>, Receiver<T>) {
        let c = make(n);
        (SyncSender(c.clone()), Receiver(c, std::marker::PhantomData))
    }
    fn push<T>(c: &Shared<T>, v: T) -> Result<(), SendError<T>> {
        if !c.c().receiver {
            return Err(SendError(v));
        }
        c.c().q.push_back(v);
        c.c().sent += 1;
        Ok(())
    }
    impl<T> Sender<T> {
        pub fn send(&self, v: T) -> Result<(), SendError<T>> {
            sched::point();
            push(&self.0, v)
        }
    }
    impl<T> SyncSender<T> {
        pub fn send(&self, v: T) -> Result<(), SendError<T>> {
            sched::point();
            let c = &self.0;
            if c.c().bound == 0 {
                push(c, v)?;
                let me = c.c().sent;
                sched::wait(&|| c.c().taken >= me || !c.c().receiver);
                return Ok(());
            }
            sched::wait(&|| c.c().q.len() < c.c().bound || !c.c().receiver);
            push(c, v)
        }
        pub fn try_send(&self, v: T) -> Result<(), TrySendError<T>> {
            sched::point();
            let c = &self.0;
            if c.c().receiver && c.c().q.len() >= c.c().bound.max(1) {
                return Err(TrySendError::Full(v));
            }
            push(c, v).map_err(|e| TrySendError::Disconnected(e.0))
        }
    }
    impl<T> Receiver<T> {
        fn pop(&self) -> Option<T> {
            let c = self.0.c();
            let r = c.q.pop_front();
            if r.is_some() {
                c.taken += 1;
            }
            r
        }
        pub fn recv(&self) -> Result<T, RecvError> {
            sched::point();
            let c = &self.0;
            sched::wait(&|| !c.c().q.is_empty() || c.c().senders == 0);
            self.pop().ok_or(RecvError)
        }
        pub fn try_recv(&self) -> Result<T, TryRecvError> {
            sched::point();
            match self.pop() {
                Some(v) => Ok(v),
                None if self.0.c().senders == 0 => Err(TryRecvError::Disconnected),
                None => Err(TryRecvError::Empty),
            }
        }
        pub fn recv_timeout(&self, _: Duration) -> Result<T, RecvTimeoutError> {
            sched::sleep();
            match self.pop() {
                Some(v) => Ok(v),
                None if self.0.c().senders == 0 => Err(RecvTimeoutError::Disconnected),
                None => Err(RecvTimeoutError::Timeout),
            }
        }
        pub fn iter(&self) -> Iter<'_, T> {
            Iter(self)
        }
        pub fn try_iter(&self) -> TryIter<'_, T> {
            TryIter(self)
        }
    }
    pub struct Iter<'a, T>(&'a Receiver<T>);
    pub struct TryIter<'a, T>(&'a Receiver<T>);
    pub struct IntoIter<T>(Receiver<T>);
    impl<'a, T> Iterator for Iter<'a, T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            self.0.recv().ok()
        }
    }
    impl<'a, T> Iterator for TryIter<'a, T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            self.0.try_recv().ok()
        }
    }
    impl<T> Iterator for IntoIter<T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            self.0.recv().ok()
        }
    }
    impl<T> IntoIterator for Receiver<T> {
        type Item = T;
        type IntoIter = IntoIter<T>;
        fn into_iter(self) -> IntoIter<T> {
            IntoIter(self)
        }
    }
    impl<'a, T> IntoIterator for &'a Receiver<T> {
        type Item = T;
        type IntoIter = Iter<'a, T>;
        fn into_iter(self) -> Iter<'a, T> {
            self.iter()
        }
    }
    macro_rules! sender {
        ($n:ident) => {
            impl<T> Clone for $n<T> {
                fn clone(&self) -> Self {
                    self.0.c().senders += 1;
                    $n(self.0.clone())
                }
            }
            impl<T> Drop for $n<T> {
                fn drop(&mut self) {
                    self.0.c().senders -= 1;
                }
            }
            impl<T> fmt::Debug for $n<T> {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    f.write_str(stringify!($n))
                }
            }
        };
    }
    sender!(Sender);
    sender!(SyncSender);
    impl<T> Drop for Receiver<T> {
        fn drop(&mut self) {
            self.0.c().receiver = false;
            // what was not received is dropped with the receiver
            let q = std::mem::take(&mut self.0.c().q);
            drop(q);
        }
    }
    impl<T> fmt::Debug for Receiver<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("Receiver")
        }
    }
}
