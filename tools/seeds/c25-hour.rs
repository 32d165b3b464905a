use crate::*;
/// a logger from before the clock jumped: its start lies far back
fn logger(back: u64) -> Logger {
    let mut logger = Logger::new();
    assert_eq!(std::mem::size_of::<Logger>(), std::mem::size_of::<SystemTime>());
    let p = &mut logger as *mut Logger as *mut SystemTime;
    unsafe { *p -= std::time::Duration::from_secs(back) };
    logger
}
#[test]
fn demo() {
    for days in [0, 1, 40, 46, 400, 4000] {
        logger(days * 86400).log("still here");
    }
}
