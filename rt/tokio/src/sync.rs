use std::cell::UnsafeCell;
use std::fmt;
use std::ops::{Deref, DerefMut};
use std::sync::Arc;
use vrt::sched;

/// A fair counting semaphore: requests are served in arrival order.
struct Sem {
    free: UnsafeCell<usize>,
    next: UnsafeCell<usize>,
    queue: UnsafeCell<Vec<(usize, usize)>>,
}
unsafe impl Send for Sem {}
unsafe impl Sync for Sem {}
#[allow(clippy::mut_from_ref)]
impl Sem {
    const fn new(n: usize) -> Self {
        Sem { free: UnsafeCell::new(n), next: UnsafeCell::new(0), queue: UnsafeCell::new(Vec::new()) }
    }
    fn free(&self) -> &mut usize {
        unsafe { &mut *self.free.get() }
    }
    fn queue(&self) -> &mut Vec<(usize, usize)> {
        unsafe { &mut *self.queue.get() }
    }
    fn acquire(&self, n: usize) {
        sched::point();
        if self.queue().is_empty() && *self.free() >= n {
            *self.free() -= n;
            return;
        }
        let t = unsafe { *self.next.get() };
        unsafe { *self.next.get() += 1 };
        self.queue().push((t, n));
        // granted by release
        sched::wait(&|| !self.queue().iter().any(|x| x.0 == t));
    }
    fn try_acquire(&self, n: usize) -> bool {
        sched::point();
        if *self.free() >= n && self.queue().is_empty() {
            *self.free() -= n;
            true
        } else {
            false
        }
    }
    fn release(&self, n: usize) {
        *self.free() += n;
        while let Some(&(_, k)) = self.queue().first() {
            if *self.free() < k {
                break;
            }
            *self.free() -= k;
            self.queue().remove(0);
        }
    }
}

#[derive(Debug)]
pub struct TryLockError(());
impl fmt::Display for TryLockError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("operation would block")
    }
}
impl std::error::Error for TryLockError {}

// ---- Mutex ------------------------------------------------------------------
pub struct Mutex<T: ?Sized> {
    s: Sem,
    v: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
pub struct MutexGuard<'a, T: ?Sized>(&'a Mutex<T>);
pub struct OwnedMutexGuard<T: ?Sized>(Arc<Mutex<T>>);
impl<T> Mutex<T> {
    pub const fn const_new(v: T) -> Self {
        Mutex { s: Sem::new(1), v: UnsafeCell::new(v) }
    }
    pub fn new(v: T) -> Self {
        Mutex { s: Sem::new(1), v: UnsafeCell::new(v) }
    }
    pub fn into_inner(self) -> T {
        self.v.into_inner()
    }
}
impl<T: ?Sized> Mutex<T> {
    pub async fn lock(&self) -> MutexGuard<'_, T> {
        self.s.acquire(1);
        MutexGuard(self)
    }
    pub fn blocking_lock(&self) -> MutexGuard<'_, T> {
        self.s.acquire(1);
        MutexGuard(self)
    }
    pub async fn lock_owned(self: Arc<Self>) -> OwnedMutexGuard<T> {
        self.s.acquire(1);
        OwnedMutexGuard(self)
    }
    pub fn try_lock(&self) -> Result<MutexGuard<'_, T>, TryLockError> {
        if self.s.try_acquire(1) {
            Ok(MutexGuard(self))
        } else {
            Err(TryLockError(()))
        }
    }
    pub fn try_lock_owned(self: Arc<Self>) -> Result<OwnedMutexGuard<T>, TryLockError> {
        if self.s.try_acquire(1) {
            Ok(OwnedMutexGuard(self))
        } else {
            Err(TryLockError(()))
        }
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.v.get_mut()
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
impl<T: ?Sized> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Mutex")
    }
}
macro_rules! guard {
    ($n:ident [$($l:lifetime)?] mutable $r:expr) => {
        guard!($n [$($l)?] $r);
        impl<$($l,)? T: ?Sized> DerefMut for $n<$($l,)? T> {
            fn deref_mut(&mut self) -> &mut T {
                unsafe { &mut *self.0.v.get() }
            }
        }
    };
    ($n:ident [$($l:lifetime)?] $r:expr) => {
        unsafe impl<$($l,)? T: ?Sized + Send + Sync> Sync for $n<$($l,)? T> {}
        impl<$($l,)? T: ?Sized> Deref for $n<$($l,)? T> {
            type Target = T;
            fn deref(&self) -> &T {
                unsafe { &*self.0.v.get() }
            }
        }
        impl<$($l,)? T: ?Sized> Drop for $n<$($l,)? T> {
            fn drop(&mut self) {
                self.0.s.release($r)
            }
        }
        impl<$($l,)? T: ?Sized + fmt::Debug> fmt::Debug for $n<$($l,)? T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                (**self).fmt(f)
            }
        }
    };
}
guard!(MutexGuard ['a] mutable 1);
guard!(OwnedMutexGuard [] mutable 1);

// ---- RwLock -----------------------------------------------------------------
const MANY: usize = 1 << 29;
pub struct RwLock<T: ?Sized> {
    s: Sem,
    v: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
pub struct RwLockReadGuard<'a, T: ?Sized>(&'a RwLock<T>);
pub struct RwLockWriteGuard<'a, T: ?Sized>(&'a RwLock<T>);
pub struct OwnedRwLockReadGuard<T: ?Sized>(Arc<RwLock<T>>);
pub struct OwnedRwLockWriteGuard<T: ?Sized>(Arc<RwLock<T>>);
guard!(RwLockReadGuard ['a] 1);
guard!(RwLockWriteGuard ['a] mutable MANY);
guard!(OwnedRwLockReadGuard [] 1);
guard!(OwnedRwLockWriteGuard [] mutable MANY);
impl<T> RwLock<T> {
    pub fn new(v: T) -> Self {
        RwLock { s: Sem::new(MANY), v: UnsafeCell::new(v) }
    }
    pub fn into_inner(self) -> T {
        self.v.into_inner()
    }
}
impl<T: ?Sized> RwLock<T> {
    pub async fn read(&self) -> RwLockReadGuard<'_, T> {
        self.s.acquire(1);
        RwLockReadGuard(self)
    }
    pub async fn write(&self) -> RwLockWriteGuard<'_, T> {
        self.s.acquire(MANY);
        RwLockWriteGuard(self)
    }
    pub fn blocking_read(&self) -> RwLockReadGuard<'_, T> {
        self.s.acquire(1);
        RwLockReadGuard(self)
    }
    pub fn blocking_write(&self) -> RwLockWriteGuard<'_, T> {
        self.s.acquire(MANY);
        RwLockWriteGuard(self)
    }
    pub async fn read_owned(self: Arc<Self>) -> OwnedRwLockReadGuard<T> {
        self.s.acquire(1);
        OwnedRwLockReadGuard(self)
    }
    pub async fn write_owned(self: Arc<Self>) -> OwnedRwLockWriteGuard<T> {
        self.s.acquire(MANY);
        OwnedRwLockWriteGuard(self)
    }
    pub fn try_read(&self) -> Result<RwLockReadGuard<'_, T>, TryLockError> {
        if self.s.try_acquire(1) {
            Ok(RwLockReadGuard(self))
        } else {
            Err(TryLockError(()))
        }
    }
    pub fn try_write(&self) -> Result<RwLockWriteGuard<'_, T>, TryLockError> {
        if self.s.try_acquire(MANY) {
            Ok(RwLockWriteGuard(self))
        } else {
            Err(TryLockError(()))
        }
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.v.get_mut()
    }
}
impl<'a, T: ?Sized> RwLockWriteGuard<'a, T> {
    pub fn downgrade(self) -> RwLockReadGuard<'a, T> {
        let l = self.0;
        std::mem::forget(self);
        l.s.release(MANY - 1);
        RwLockReadGuard(l)
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        RwLock::new(T::default())
    }
}
impl<T: ?Sized> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("RwLock")
    }
}

// ---- Semaphore, Notify ------------------------------------------------------
pub struct Semaphore(Sem);
pub struct SemaphorePermit<'a>(&'a Semaphore);
pub struct OwnedSemaphorePermit(Arc<Semaphore>);
impl Drop for OwnedSemaphorePermit {
    fn drop(&mut self) {
        self.0 .0.release(1)
    }
}
impl SemaphorePermit<'_> {
    pub fn forget(self) {
        std::mem::forget(self)
    }
}
#[derive(Debug, PartialEq, Eq)]
pub enum TryAcquireError {
    Closed,
    NoPermits,
}
impl fmt::Debug for Semaphore {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Semaphore")
    }
}
#[derive(Debug)]
pub struct AcquireError(());
impl Semaphore {
    pub fn new(n: usize) -> Self {
        Semaphore(Sem::new(n))
    }
    pub async fn acquire(&self) -> Result<SemaphorePermit<'_>, AcquireError> {
        self.0.acquire(1);
        Ok(SemaphorePermit(self))
    }
    pub fn try_acquire(&self) -> Result<SemaphorePermit<'_>, TryAcquireError> {
        if self.0.try_acquire(1) {
            Ok(SemaphorePermit(self))
        } else {
            Err(TryAcquireError::NoPermits)
        }
    }
    pub async fn acquire_owned(self: Arc<Self>) -> Result<OwnedSemaphorePermit, AcquireError> {
        self.0.acquire(1);
        Ok(OwnedSemaphorePermit(self))
    }
    pub fn add_permits(&self, n: usize) {
        self.0.release(n)
    }
    pub fn available_permits(&self) -> usize {
        *self.0.free()
    }
}
impl Drop for SemaphorePermit<'_> {
    fn drop(&mut self) {
        self.0 .0.release(1)
    }
}
#[derive(Debug)]
pub struct Notify {
    permit: UnsafeCell<bool>,
    waiting: UnsafeCell<Vec<usize>>,
    next: UnsafeCell<usize>,
}
unsafe impl Send for Notify {}
unsafe impl Sync for Notify {}
impl Notify {
    pub fn new() -> Self {
        Notify { permit: UnsafeCell::new(false), waiting: UnsafeCell::new(Vec::new()), next: UnsafeCell::new(0) }
    }
    pub async fn notified(&self) {
        sched::point();
        unsafe {
            if *self.permit.get() {
                *self.permit.get() = false;
                return;
            }
            let t = *self.next.get();
            *self.next.get() += 1;
            (*self.waiting.get()).push(t);
            sched::wait(&|| !(*self.waiting.get()).contains(&t));
        }
    }
    pub fn notify_one(&self) {
        unsafe {
            if (*self.waiting.get()).is_empty() {
                *self.permit.get() = true;
            } else {
                (*self.waiting.get()).remove(0);
            }
        }
    }
    pub fn notify_waiters(&self) {
        unsafe { (*self.waiting.get()).clear() }
    }
}
impl Default for Notify {
    fn default() -> Self {
        Self::new()
    }
}

// ---- mapped guards, barrier ---------------------------------------------------
pub struct MappedReadGuard<'a, T: ?Sized, U: ?Sized>(RwLockReadGuard<'a, T>, *const U);
impl<'a, T: ?Sized, U: ?Sized> Deref for MappedReadGuard<'a, T, U> {
    type Target = U;
    fn deref(&self) -> &U {
        unsafe { &*self.1 }
    }
}
unsafe impl<T: ?Sized + Send + Sync, U: ?Sized> Send for MappedReadGuard<'_, T, U> {}
impl<'a, T: ?Sized> RwLockReadGuard<'a, T> {
    pub fn map<U: ?Sized>(this: Self, f: impl FnOnce(&T) -> &U) -> MappedReadGuard<'a, T, U> {
        let p: *const U = f(&*this);
        MappedReadGuard(this, p)
    }
}
pub struct Barrier {
    n: usize,
    count: UnsafeCell<usize>,
    generation: UnsafeCell<usize>,
}
unsafe impl Send for Barrier {}
unsafe impl Sync for Barrier {}
pub struct BarrierWaitResult(bool);
impl BarrierWaitResult {
    pub fn is_leader(&self) -> bool {
        self.0
    }
}
impl Barrier {
    pub fn new(n: usize) -> Self {
        Barrier { n, count: UnsafeCell::new(0), generation: UnsafeCell::new(0) }
    }
    pub async fn wait(&self) -> BarrierWaitResult {
        sched::point();
        unsafe {
            let g = *self.generation.get();
            *self.count.get() += 1;
            if *self.count.get() >= self.n {
                *self.count.get() = 0;
                *self.generation.get() += 1;
                return BarrierWaitResult(true);
            }
            sched::wait(&|| *self.generation.get() != g);
            BarrierWaitResult(false)
        }
    }
}

// ---- channels ---------------------------------------------------------------
pub mod mpsc {
    use super::*;
    use std::collections::VecDeque;
    pub mod error {
        pub use super::{SendError, TryRecvError, TrySendError};
    }
    #[derive(Debug)]
    pub struct SendError<T>(pub T);
    impl<T> fmt::Display for SendError<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("channel closed")
        }
    }
    impl<T: fmt::Debug> std::error::Error for SendError<T> {}
    #[derive(Debug, PartialEq, Eq, Clone, Copy)]
    pub enum TryRecvError {
        Empty,
        Disconnected,
    }
    #[derive(Debug)]
    pub enum TrySendError<T> {
        Full(T),
        Closed(T),
    }
    struct Chan<T> {
        q: VecDeque<T>,
        senders: usize,
        receiver: bool,
        bound: usize,
    }
    struct Shared<T>(UnsafeCell<Chan<T>>);
    unsafe impl<T> Send for Shared<T> {}
    unsafe impl<T> Sync for Shared<T> {}
    #[allow(clippy::mut_from_ref)]
    impl<T> Shared<T> {
        fn c(&self) -> &mut Chan<T> {
            unsafe { &mut *self.0.get() }
        }
    }
    pub struct Sender<T>(Arc<Shared<T>>);
    pub struct Receiver<T>(Arc<Shared<T>>);
    pub struct UnboundedSender<T>(Arc<Shared<T>>);
    pub struct UnboundedReceiver<T>(Arc<Shared<T>>);
    fn make<T>(bound: usize) -> Arc<Shared<T>> {
        Arc::new(Shared(UnsafeCell::new(Chan { q: VecDeque::new(), senders: 1, receiver: true, bound })))
    }
    pub fn channel<T>(n: usize) -> (Sender<T>, Receiver<T>) {
        assert!(n > 0, "mpsc bounded channel requires buffer > 0");
        let c = make(n);
        (Sender(c.clone()), Receiver(c))
    }
    pub fn unbounded_channel<T>() -> (UnboundedSender<T>, UnboundedReceiver<T>) {
        let c = make(usize::MAX);
        (UnboundedSender(c.clone()), UnboundedReceiver(c))
    }
    impl<T> Sender<T> {
        pub async fn send(&self, v: T) -> Result<(), SendError<T>> {
            sched::point();
            let c = &self.0;
            sched::wait(&|| c.c().q.len() < c.c().bound || !c.c().receiver);
            if !c.c().receiver {
                return Err(SendError(v));
            }
            c.c().q.push_back(v);
            Ok(())
        }
        pub fn try_send(&self, v: T) -> Result<(), TrySendError<T>> {
            sched::point();
            let c = self.0.c();
            if !c.receiver {
                Err(TrySendError::Closed(v))
            } else if c.q.len() >= c.bound {
                Err(TrySendError::Full(v))
            } else {
                c.q.push_back(v);
                Ok(())
            }
        }
        pub fn is_closed(&self) -> bool {
            !self.0.c().receiver
        }
        pub fn blocking_send(&self, v: T) -> Result<(), SendError<T>> {
            vrt::block_on(self.send(v))
        }
        pub async fn closed(&self) {
            sched::point();
            let c = &self.0;
            sched::wait(&|| !c.c().receiver);
        }
        pub fn capacity(&self) -> usize {
            self.0.c().bound - self.0.c().q.len()
        }
    }
    impl<T> UnboundedSender<T> {
        pub fn is_closed(&self) -> bool {
            !self.0.c().receiver
        }
        pub async fn closed(&self) {
            sched::point();
            let c = &self.0;
            sched::wait(&|| !c.c().receiver);
        }
        pub fn send(&self, v: T) -> Result<(), SendError<T>> {
            sched::point();
            if !self.0.c().receiver {
                return Err(SendError(v));
            }
            self.0.c().q.push_back(v);
            Ok(())
        }
    }
    macro_rules! rx {
        ($n:ident) => {
            impl<T> $n<T> {
                pub async fn recv(&mut self) -> Option<T> {
                    sched::point();
                    let c = &self.0;
                    sched::wait(&|| !c.c().q.is_empty() || c.c().senders == 0);
                    if c.c().q.is_empty() {
                        // whoever asks a closed channel again and again does not stop the others
                        sched::yield_fair();
                    }
                    c.c().q.pop_front()
                }
                pub fn try_recv(&mut self) -> Result<T, TryRecvError> {
                    sched::point();
                    match self.0.c().q.pop_front() {
                        Some(v) => Ok(v),
                        None if self.0.c().senders == 0 => Err(TryRecvError::Disconnected),
                        None => Err(TryRecvError::Empty),
                    }
                }
                pub fn blocking_recv(&mut self) -> Option<T> {
                    vrt::block_on(self.recv())
                }
                pub fn close(&mut self) {
                    self.0.c().receiver = false;
                }
            }
            impl<T> Drop for $n<T> {
                fn drop(&mut self) {
                    self.0.c().receiver = false;
                    let q = std::mem::take(&mut self.0.c().q);
                    drop(q);
                }
            }
            impl<T> fmt::Debug for $n<T> {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    f.write_str(stringify!($n))
                }
            }
        };
    }
    rx!(Receiver);
    rx!(UnboundedReceiver);
    macro_rules! tx {
        ($n:ident) => {
            impl<T> Clone for $n<T> {
                fn clone(&self) -> Self {
                    self.0.c().senders += 1;
                    $n(self.0.clone())
                }
            }
            impl<T> Drop for $n<T> {
                fn drop(&mut self) {
                    self.0.c().senders -= 1;
                }
            }
            impl<T> fmt::Debug for $n<T> {
                fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                    f.write_str(stringify!($n))
                }
            }
        };
    }
    tx!(Sender);
    tx!(UnboundedSender);
}

pub mod oneshot {
    use super::*;
    use std::future::Future;
    use std::pin::Pin;
    use std::task::{Context, Poll};
    pub mod error {
        pub use super::RecvError;
    }
    #[derive(Debug, PartialEq, Eq, Clone)]
    pub struct RecvError(());
    struct Cell<T> {
        v: UnsafeCell<Option<T>>,
        tx: UnsafeCell<bool>,
        rx: UnsafeCell<bool>,
    }
    unsafe impl<T> Send for Cell<T> {}
    unsafe impl<T> Sync for Cell<T> {}
    pub struct Sender<T>(Arc<Cell<T>>);
    pub struct Receiver<T>(Arc<Cell<T>>);
    pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
        let c = Arc::new(Cell { v: UnsafeCell::new(None), tx: UnsafeCell::new(true), rx: UnsafeCell::new(true) });
        (Sender(c.clone()), Receiver(c))
    }
    impl<T> Sender<T> {
        pub fn is_closed(&self) -> bool {
            unsafe { !*self.0.rx.get() }
        }
        pub fn send(self, v: T) -> Result<(), T> {
            sched::point();
            unsafe {
                if !*self.0.rx.get() {
                    return Err(v);
                }
                *self.0.v.get() = Some(v);
            }
            Ok(())
        }
    }
    impl<T> Drop for Sender<T> {
        fn drop(&mut self) {
            unsafe { *self.0.tx.get() = false }
        }
    }
    impl<T> Drop for Receiver<T> {
        fn drop(&mut self) {
            unsafe { *self.0.rx.get() = false }
        }
    }
    impl fmt::Display for RecvError {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("channel closed")
        }
    }
    impl std::error::Error for RecvError {}
    #[derive(Debug, PartialEq, Eq, Clone)]
    pub enum TryRecvError {
        Empty,
        Closed,
    }
    impl<T> Receiver<T> {
        pub fn try_recv(&mut self) -> Result<T, TryRecvError> {
            sched::point();
            match unsafe { (*self.0.v.get()).take() } {
                Some(v) => Ok(v),
                None if unsafe { *self.0.tx.get() } => Err(TryRecvError::Empty),
                None => Err(TryRecvError::Closed),
            }
        }
        pub fn blocking_recv(self) -> Result<T, RecvError> {
            vrt::block_on(self)
        }
        pub fn close(&mut self) {
            unsafe { *self.0.rx.get() = false }
        }
    }
    impl<T> Future for Receiver<T> {
        type Output = Result<T, RecvError>;
        fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Self::Output> {
            sched::point();
            sched::wait(&|| unsafe { (*self.0.v.get()).is_some() || !*self.0.tx.get() });
            Poll::Ready(unsafe { (*self.0.v.get()).take().ok_or(RecvError(())) })
        }
    }
}

pub mod watch {
    use super::*;
    pub mod error {
        pub use super::{RecvError, SendError};
    }
    #[derive(Debug)]
    pub struct SendError<T>(pub T);
    #[derive(Debug, Clone)]
    pub struct RecvError(());
    impl fmt::Display for RecvError {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str("channel closed")
        }
    }
    impl std::error::Error for RecvError {}
    struct Chan<T> {
        v: RwLock<T>,
        version: UnsafeCell<u64>,
        senders: UnsafeCell<usize>,
        receivers: UnsafeCell<usize>,
    }
    unsafe impl<T> Send for Chan<T> {}
    unsafe impl<T> Sync for Chan<T> {}
    pub struct Sender<T>(Arc<Chan<T>>);
    pub struct Receiver<T>(Arc<Chan<T>>, u64);
    pub struct Ref<'a, T>(RwLockReadGuard<'a, T>);
    impl<T> Deref for Ref<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            &self.0
        }
    }
    pub fn channel<T>(v: T) -> (Sender<T>, Receiver<T>) {
        let c = Arc::new(Chan { v: RwLock::new(v), version: UnsafeCell::new(0), senders: UnsafeCell::new(1), receivers: UnsafeCell::new(1) });
        (Sender(c.clone()), Receiver(c, 0))
    }
    impl<T> Sender<T> {
        pub fn send_replace(&self, v: T) -> T {
            let mut g = self.0.v.blocking_write();
            unsafe { *self.0.version.get() += 1 };
            std::mem::replace(&mut *g, v)
        }
        pub fn send(&self, v: T) -> Result<(), SendError<T>> {
            if unsafe { *self.0.receivers.get() } == 0 {
                return Err(SendError(v));
            }
            drop(self.send_replace(v));
            Ok(())
        }
        pub fn send_modify(&self, f: impl FnOnce(&mut T)) {
            let mut g = self.0.v.blocking_write();
            f(&mut g);
            unsafe { *self.0.version.get() += 1 };
        }
        pub fn borrow(&self) -> Ref<'_, T> {
            Ref(self.0.v.blocking_read())
        }
        pub fn subscribe(&self) -> Receiver<T> {
            unsafe { *self.0.receivers.get() += 1 };
            Receiver(self.0.clone(), unsafe { *self.0.version.get() })
        }
        pub fn receiver_count(&self) -> usize {
            unsafe { *self.0.receivers.get() }
        }
        pub fn is_closed(&self) -> bool {
            self.receiver_count() == 0
        }
    }
    impl<T> Drop for Sender<T> {
        fn drop(&mut self) {
            unsafe { *self.0.senders.get() -= 1 }
        }
    }
    impl<T> Receiver<T> {
        pub fn borrow(&self) -> Ref<'_, T> {
            Ref(self.0.v.blocking_read())
        }
        pub fn borrow_and_update(&mut self) -> Ref<'_, T> {
            let g = self.0.v.blocking_read();
            self.1 = unsafe { *self.0.version.get() };
            Ref(g)
        }
        pub fn has_changed(&self) -> Result<bool, RecvError> {
            sched::point();
            unsafe {
                if *self.0.senders.get() == 0 {
                    return Err(RecvError(()));
                }
                Ok(*self.0.version.get() != self.1)
            }
        }
        pub async fn changed(&mut self) -> Result<(), RecvError> {
            sched::point();
            let c = &self.0;
            let me = self.1;
            sched::wait(&|| unsafe { *c.version.get() != me || *c.senders.get() == 0 });
            unsafe {
                if *c.version.get() != me {
                    self.1 = *c.version.get();
                    Ok(())
                } else {
                    Err(RecvError(()))
                }
            }
        }
    }
    impl<T> Clone for Receiver<T> {
        fn clone(&self) -> Self {
            unsafe { *self.0.receivers.get() += 1 };
            Receiver(self.0.clone(), self.1)
        }
    }
    impl<T> Drop for Receiver<T> {
        fn drop(&mut self) {
            unsafe { *self.0.receivers.get() -= 1 }
        }
    }
}
