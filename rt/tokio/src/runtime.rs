use std::future::Future;
use std::io;

#[derive(Debug)]
pub struct Runtime;
#[derive(Debug, Clone)]
pub struct Handle;
impl Runtime {
    pub fn new() -> io::Result<Runtime> {
        if vrt::sched::refuse() {
            return Err(io::ErrorKind::WouldBlock.into());
        }
        Ok(Runtime)
    }
    pub fn block_on<F: Future>(&self, f: F) -> F::Output {
        vrt::block_on(f)
    }
    pub fn spawn<F>(&self, f: F) -> crate::task::JoinHandle<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        crate::spawn(f)
    }
    pub fn spawn_blocking<F, R>(&self, f: F) -> crate::task::JoinHandle<R>
    where
        F: FnOnce() -> R + Send + 'static,
        R: Send + 'static,
    {
        crate::task::spawn_blocking(f)
    }
    pub fn enter(&self) -> EnterGuard<'_> {
        EnterGuard(std::marker::PhantomData)
    }
    pub fn shutdown_background(self) {}
    pub fn shutdown_timeout(self, _: std::time::Duration) {}
    pub fn handle(&self) -> Handle {
        Handle
    }
}
impl Handle {
    pub fn current() -> Handle {
        Handle
    }
    pub fn block_on<F: Future>(&self, f: F) -> F::Output {
        vrt::block_on(f)
    }
    pub fn spawn<F>(&self, f: F) -> crate::task::JoinHandle<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        crate::spawn(f)
    }
}
pub struct EnterGuard<'a>(std::marker::PhantomData<&'a ()>);
#[derive(Debug, Default)]
pub struct Builder;
impl Builder {
    pub fn new_multi_thread() -> Builder {
        Builder
    }
    pub fn new_current_thread() -> Builder {
        Builder
    }
    pub fn enable_all(&mut self) -> &mut Self {
        self
    }
    pub fn enable_io(&mut self) -> &mut Self {
        self
    }
    pub fn enable_time(&mut self) -> &mut Self {
        self
    }
    pub fn worker_threads(&mut self, _: usize) -> &mut Self {
        self
    }
    pub fn thread_name(&mut self, _: impl Into<String>) -> &mut Self {
        self
    }
    pub fn max_blocking_threads(&mut self, _: usize) -> &mut Self {
        self
    }
    pub fn thread_stack_size(&mut self, _: usize) -> &mut Self {
        self
    }
    pub fn build(&mut self) -> io::Result<Runtime> {
        Runtime::new()
    }
}
