use super::zz_support::*;
use std::sync::atomic::{AtomicU64, Ordering};
/// seconds the clock has been set back
static BACK: AtomicU64 = AtomicU64::new(0);
/// the clock of this process
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: i32, t: *mut i64) -> i32 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") 228i64 => r, in("rdi") clock as i64, in("rsi") t, lateout("rcx") _, lateout("r11") _, options(nostack));
    if r == 0 && clock == 0 {
        *t -= BACK.load(Ordering::SeqCst) as i64;
    }
    r as i32
}
#[test]
fn demo() {
    let chain = plain_chain(2);
    let node = Server::start(chain.clone(), vec![]);
    let s = node.state(index(&chain), 1);
    let r = runtime();
    r.block_on(s.update());
    BACK.store(3600, Ordering::SeqCst);
    let spend = Tx::new(&[(Tx::coinbase(1, &[(1001, script(&key(1)))]).id(), 0)], &[(900, script(&key(40)))]);
    node.set(&chain, &[spend]);
    r.block_on(s.update());
    assert_eq!(ask(&r, &s, &key(40), 0).0, 900);
    assert_eq!(ask(&r, &s, &key(1), 0).0, 0);
}
