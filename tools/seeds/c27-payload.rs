use crate::*;
fn joined(fail: impl FnOnce() + Send + 'static) -> Option<bool> {
    let (done, is_done) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let mut e = Executor::new();
        e.spawn_runtime((), |_| async {});
        e.spawn_runtime((), move |_| async move {
            sleep(Duration::from_millis(500)).await;
            fail();
        });
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || e.join()));
        done.send(r.is_ok()).unwrap();
    });
    is_done.recv_timeout(std::time::Duration::from_secs(20)).ok()
}
#[test]
fn demo() {
    assert_eq!(joined(|| ()), Some(true));
    let n = std::env::args().count();
    assert_eq!(joined(move || panic!("no answer after {} attempts", n)), Some(false));
    assert_eq!(joined(|| panic!("no answer")), Some(false));
    assert_eq!(joined(|| std::panic::panic_any(5u32)), Some(false));
}
