use super::zz_support::*;
use crate::*;
#[test]
fn demo() {
    let done = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(0));
    let d = done.clone();
    std::thread::spawn(move || {
        let n = SequentialThreadPool::new(2, |x: u32| x, 0..70_000).enumerate().take_while(|(k, x)| *k as u32 == *x).count();
        d.store(n, std::sync::atomic::Ordering::SeqCst);
    });
    assert!(wait(|| done.load(std::sync::atomic::Ordering::SeqCst) == 70_000, 60_000));
}
