//! The parts of tokio an application like this uses, over the task scheduler of vrt: every
//! asynchronous task is a vrt task, every await of a lock, channel, timer or join is a
//! scheduling point. Locks are fair (first come, first served), as tokio's are.
pub mod runtime;
pub mod sync;
pub mod task;
pub mod time;
pub use task::spawn;

/// Suspends the current task at a scheduling point, then goes on.
pub(crate) async fn point() {
    vrt::sched::point()
}
